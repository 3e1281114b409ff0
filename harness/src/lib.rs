//! Scenarios executed symbolically by `/verif/engine`, and natively by `/verif/replay`.

pub mod algo;
pub mod props;
pub mod run;
pub mod special;
pub mod sym;
pub mod tables;

use algo::*;

macro_rules! scenarios {
    ($($n:ident = $f:expr;)*) => {
        $(#[no_mangle]
        pub extern "C" fn $n() {
            $f()
        })*
        pub fn find(name: &str) -> Option<extern "C" fn()> {
            match name {
                $(stringify!($n) => Some($n),)*
                _ => None,
            }
        }
    };
}

scenarios! {
    c01_incr_bup = props::c01_incr::<Bup>;
    c01_incr_buz = props::c01_incr::<Buz>;
    c01_incr_buztab = props::c01_incr::<BuzTab>;
    c01_incr_buzborg = props::c01_incr::<BuzBorg>;
    c01_incr_buzsalt = props::c01_incr::<BuzSalt>;
    c01_incr_fast = props::c01_incr::<Fast>;
    c01_incr_gear = props::c01_incr::<Gear>;
    c01_incr_gzip = props::c01_incr::<Gzip>;
    c01_incr_mii = props::c01_incr::<Mii>;
    c01_incr_pigz = props::c01_incr::<Pigz>;
    c01_incr_ram = props::c01_incr::<Ram>;
    c01_incr_zpaq = props::c01_incr::<Zpaq>;
    c01_incr_zstd = props::c01_incr::<Zstd>;
    c01_fce_bup = props::c01_fce::<Bup>;
    c01_fce_buz = props::c01_fce::<Buz>;
    c01_fce_buztab = props::c01_fce::<BuzTab>;
    c01_fce_buzborg = props::c01_fce::<BuzBorg>;
    c01_fce_buzsalt = props::c01_fce::<BuzSalt>;
    c01_fce_fast = props::c01_fce::<Fast>;
    c01_fce_gear = props::c01_fce::<Gear>;
    c01_fce_gzip = props::c01_fce::<Gzip>;
    c01_fce_mii = props::c01_fce::<Mii>;
    c01_fce_pigz = props::c01_fce::<Pigz>;
    c01_fce_ram = props::c01_fce::<Ram>;
    c01_fce_zpaq = props::c01_fce::<Zpaq>;
    c01_fce_zstd = props::c01_fce::<Zstd>;
    c02_bup = props::c02::<Bup>;
    c02_buz = props::c02::<Buz>;
    c02_buztab = props::c02::<BuzTab>;
    c02_buzborg = props::c02::<BuzBorg>;
    c02_buzsalt = props::c02::<BuzSalt>;
    c02_fast = props::c02::<Fast>;
    c02_gear = props::c02::<Gear>;
    c02_gzip = props::c02::<Gzip>;
    c02_mii = props::c02::<Mii>;
    c02_pigz = props::c02::<Pigz>;
    c02_ram = props::c02::<Ram>;
    c02_zpaq = props::c02::<Zpaq>;
    c02_zstd = props::c02::<Zstd>;
    c02_part_bup = props::c02_part::<Bup>;
    c02_part_buz = props::c02_part::<Buz>;
    c02_part_buztab = props::c02_part::<BuzTab>;
    c02_part_buzborg = props::c02_part::<BuzBorg>;
    c02_part_buzsalt = props::c02_part::<BuzSalt>;
    c02_part_fast = props::c02_part::<Fast>;
    c02_part_gear = props::c02_part::<Gear>;
    c02_part_gzip = props::c02_part::<Gzip>;
    c02_part_mii = props::c02_part::<Mii>;
    c02_part_pigz = props::c02_part::<Pigz>;
    c02_part_ram = props::c02_part::<Ram>;
    c02_part_zpaq = props::c02_part::<Zpaq>;
    c02_part_zstd = props::c02_part::<Zstd>;
    c03_bup = props::c03::<Bup>;
    c03_buz = props::c03::<Buz>;
    c03_buztab = props::c03::<BuzTab>;
    c03_buzborg = props::c03::<BuzBorg>;
    c03_buzsalt = props::c03::<BuzSalt>;
    c03_fast = props::c03::<Fast>;
    c03_gear = props::c03::<Gear>;
    c03_gzip = props::c03::<Gzip>;
    c03_mii = props::c03::<Mii>;
    c03_pigz = props::c03::<Pigz>;
    c03_ram = props::c03::<Ram>;
    c03_zpaq = props::c03::<Zpaq>;
    c03_zstd = props::c03::<Zstd>;
    c04_bup = props::c04::<Bup>;
    c04_buz = props::c04::<Buz>;
    c04_buztab = props::c04::<BuzTab>;
    c04_buzborg = props::c04::<BuzBorg>;
    c04_buzsalt = props::c04::<BuzSalt>;
    c04_fast = props::c04::<Fast>;
    c04_gear = props::c04::<Gear>;
    c04_gzip = props::c04::<Gzip>;
    c04_mii = props::c04::<Mii>;
    c04_pigz = props::c04::<Pigz>;
    c04_ram = props::c04::<Ram>;
    c04_zpaq = props::c04::<Zpaq>;
    c04_zstd = props::c04::<Zstd>;
    c05_bup = props::c05::<Bup>;
    c05_buz = props::c05::<Buz>;
    c05_buztab = props::c05::<BuzTab>;
    c05_buzborg = props::c05::<BuzBorg>;
    c05_buzsalt = props::c05::<BuzSalt>;
    c05_fast = props::c05::<Fast>;
    c05_gear = props::c05::<Gear>;
    c05_gzip = props::c05::<Gzip>;
    c05_mii = props::c05::<Mii>;
    c05_pigz = props::c05::<Pigz>;
    c05_ram = props::c05::<Ram>;
    c05_zpaq = props::c05::<Zpaq>;
    c05_zstd = props::c05::<Zstd>;
    c02_resume_bup = props::c02_resume::<Bup>;
    c02_adapt_bup = props::c02_adapt::<Bup>;
    c05_from_ref_bup = props::c05_from_ref::<Bup>;
    c02_resume_buz = props::c02_resume::<Buz>;
    c02_adapt_buz = props::c02_adapt::<Buz>;
    c05_from_ref_buz = props::c05_from_ref::<Buz>;
    c02_resume_buztab = props::c02_resume::<BuzTab>;
    c02_adapt_buztab = props::c02_adapt::<BuzTab>;
    c05_from_ref_buztab = props::c05_from_ref::<BuzTab>;
    c02_resume_buzborg = props::c02_resume::<BuzBorg>;
    c02_adapt_buzborg = props::c02_adapt::<BuzBorg>;
    c05_from_ref_buzborg = props::c05_from_ref::<BuzBorg>;
    c02_resume_buzsalt = props::c02_resume::<BuzSalt>;
    c02_adapt_buzsalt = props::c02_adapt::<BuzSalt>;
    c05_from_ref_buzsalt = props::c05_from_ref::<BuzSalt>;
    c02_resume_fast = props::c02_resume::<Fast>;
    c02_adapt_fast = props::c02_adapt::<Fast>;
    c05_from_ref_fast = props::c05_from_ref::<Fast>;
    c02_resume_gear = props::c02_resume::<Gear>;
    c02_adapt_gear = props::c02_adapt::<Gear>;
    c05_from_ref_gear = props::c05_from_ref::<Gear>;
    c02_resume_gzip = props::c02_resume::<Gzip>;
    c02_adapt_gzip = props::c02_adapt::<Gzip>;
    c05_from_ref_gzip = props::c05_from_ref::<Gzip>;
    c02_resume_mii = props::c02_resume::<Mii>;
    c02_adapt_mii = props::c02_adapt::<Mii>;
    c05_from_ref_mii = props::c05_from_ref::<Mii>;
    c02_resume_pigz = props::c02_resume::<Pigz>;
    c02_adapt_pigz = props::c02_adapt::<Pigz>;
    c05_from_ref_pigz = props::c05_from_ref::<Pigz>;
    c02_resume_ram = props::c02_resume::<Ram>;
    c02_adapt_ram = props::c02_adapt::<Ram>;
    c05_from_ref_ram = props::c05_from_ref::<Ram>;
    c02_resume_zpaq = props::c02_resume::<Zpaq>;
    c02_adapt_zpaq = props::c02_adapt::<Zpaq>;
    c05_from_ref_zpaq = props::c05_from_ref::<Zpaq>;
    c02_resume_zstd = props::c02_resume::<Zstd>;
    c02_adapt_zstd = props::c02_adapt::<Zstd>;
    c05_from_ref_zstd = props::c05_from_ref::<Zstd>;
    c05_from_buz = props::c05_from::<Buz>;
    c05_from_buztab = props::c05_from::<BuzTab>;
    c05_from_buzborg = props::c05_from::<BuzBorg>;
    c05_from_buzsalt = props::c05_from::<BuzSalt>;
    c05_from_gzip = props::c05_from::<Gzip>;
    c05_from_mii = props::c05_from::<Mii>;
    c05_from_pigz = props::c05_from::<Pigz>;
    c05_from_zpaq = props::c05_from::<Zpaq>;
    c05_from_zstd = props::c05_from::<Zstd>;
    c05_state_bup = props::c05_state::<Bup>;
    c05_state_pigz = props::c05_state::<Pigz>;
    c05_state_zpaq = props::c05_state::<Zpaq>;
    c05_state_default_buz = props::c05_state_default::<Buz>;
    c05_state_default_fast = props::c05_state_default::<Fast>;
    c05_state_default_gear = props::c05_state_default::<Gear>;
    c05_state_default_gzip = props::c05_state_default::<Gzip>;
    c05_state_default_ram = props::c05_state_default::<Ram>;
    c05_state_default_zpaq = props::c05_state_default::<Zpaq>;
    c05_state_default_zstd = props::c05_state_default::<Zstd>;
    c05_incr_default_bup = props::c05_incr_default::<Bup>;
    c05_incr_default_fast = props::c05_incr_default::<Fast>;
    c05_mii_state = props::c05_mii_state;
    c06_incr_bup = props::c06_incr::<Bup>;
    c06_incr_buz = props::c06_incr::<Buz>;
    c06_incr_buztab = props::c06_incr::<BuzTab>;
    c06_incr_buzborg = props::c06_incr::<BuzBorg>;
    c06_incr_buzsalt = props::c06_incr::<BuzSalt>;
    c06_incr_fast = props::c06_incr::<Fast>;
    c06_incr_gear = props::c06_incr::<Gear>;
    c06_incr_gzip = props::c06_incr::<Gzip>;
    c06_incr_mii = props::c06_incr::<Mii>;
    c06_incr_pigz = props::c06_incr::<Pigz>;
    c06_incr_ram = props::c06_incr::<Ram>;
    c06_incr_zpaq = props::c06_incr::<Zpaq>;
    c06_incr_zstd = props::c06_incr::<Zstd>;
    c06_fce_bup = props::c06_fce::<Bup>;
    c06_fce_buz = props::c06_fce::<Buz>;
    c06_fce_buztab = props::c06_fce::<BuzTab>;
    c06_fce_buzborg = props::c06_fce::<BuzBorg>;
    c06_fce_buzsalt = props::c06_fce::<BuzSalt>;
    c06_fce_fast = props::c06_fce::<Fast>;
    c06_fce_gear = props::c06_fce::<Gear>;
    c06_fce_gzip = props::c06_fce::<Gzip>;
    c06_fce_mii = props::c06_fce::<Mii>;
    c06_fce_pigz = props::c06_fce::<Pigz>;
    c06_fce_ram = props::c06_fce::<Ram>;
    c06_fce_zpaq = props::c06_fce::<Zpaq>;
    c06_fce_zstd = props::c06_fce::<Zstd>;
    c06_tail_bup = props::c06_tail::<Bup>;
    c06_tail_buz = props::c06_tail::<Buz>;
    c06_tail_buztab = props::c06_tail::<BuzTab>;
    c06_tail_buzborg = props::c06_tail::<BuzBorg>;
    c06_tail_buzsalt = props::c06_tail::<BuzSalt>;
    c06_tail_fast = props::c06_tail::<Fast>;
    c06_tail_gear = props::c06_tail::<Gear>;
    c06_tail_gzip = props::c06_tail::<Gzip>;
    c06_tail_mii = props::c06_tail::<Mii>;
    c06_tail_pigz = props::c06_tail::<Pigz>;
    c06_tail_ram = props::c06_tail::<Ram>;
    c06_tail_zpaq = props::c06_tail::<Zpaq>;
    c06_tail_zstd = props::c06_tail::<Zstd>;
    c08_incr_bup = props::c08_incr::<Bup>;
    c08_incr_buz = props::c08_incr::<Buz>;
    c08_incr_buztab = props::c08_incr::<BuzTab>;
    c08_incr_buzborg = props::c08_incr::<BuzBorg>;
    c08_incr_buzsalt = props::c08_incr::<BuzSalt>;
    c08_incr_fast = props::c08_incr::<Fast>;
    c08_incr_gear = props::c08_incr::<Gear>;
    c08_incr_gzip = props::c08_incr::<Gzip>;
    c08_incr_mii = props::c08_incr::<Mii>;
    c08_incr_pigz = props::c08_incr::<Pigz>;
    c08_incr_ram = props::c08_incr::<Ram>;
    c08_incr_zpaq = props::c08_incr::<Zpaq>;
    c08_incr_zstd = props::c08_incr::<Zstd>;
    c08_fce_bup = props::c08_fce::<Bup>;
    c08_fce_buz = props::c08_fce::<Buz>;
    c08_fce_buztab = props::c08_fce::<BuzTab>;
    c08_fce_buzborg = props::c08_fce::<BuzBorg>;
    c08_fce_buzsalt = props::c08_fce::<BuzSalt>;
    c08_fce_fast = props::c08_fce::<Fast>;
    c08_fce_gear = props::c08_fce::<Gear>;
    c08_fce_gzip = props::c08_fce::<Gzip>;
    c08_fce_mii = props::c08_fce::<Mii>;
    c08_fce_pigz = props::c08_fce::<Pigz>;
    c08_fce_ram = props::c08_fce::<Ram>;
    c08_fce_zpaq = props::c08_fce::<Zpaq>;
    c08_fce_zstd = props::c08_fce::<Zstd>;
    c08_iter_bup = props::c08_iter::<Bup>;
    c08_iter_buz = props::c08_iter::<Buz>;
    c08_iter_buztab = props::c08_iter::<BuzTab>;
    c08_iter_buzborg = props::c08_iter::<BuzBorg>;
    c08_iter_buzsalt = props::c08_iter::<BuzSalt>;
    c08_iter_fast = props::c08_iter::<Fast>;
    c08_iter_gear = props::c08_iter::<Gear>;
    c08_iter_gzip = props::c08_iter::<Gzip>;
    c08_iter_mii = props::c08_iter::<Mii>;
    c08_iter_pigz = props::c08_iter::<Pigz>;
    c08_iter_ram = props::c08_iter::<Ram>;
    c08_iter_zpaq = props::c08_iter::<Zpaq>;
    c08_iter_zstd = props::c08_iter::<Zstd>;
    def_bup = props::def::<Bup>;
    def_buz = props::def::<Buz>;
    def_buztab = props::def::<BuzTab>;
    def_buzborg = props::def::<BuzBorg>;
    def_buzsalt = props::def::<BuzSalt>;
    def_fast = props::def::<Fast>;
    def_gear = props::def::<Gear>;
    def_gzip = props::def::<Gzip>;
    def_mii = props::def::<Mii>;
    def_pigz = props::def::<Pigz>;
    def_ram = props::def::<Ram>;
    def_zpaq = props::def::<Zpaq>;
    def_zstd = props::def::<Zstd>;
    c14_other_bup = props::c14_other::<Bup>;
    c14_other_buz = props::c14_other::<Buz>;
    c14_other_buztab = props::c14_other::<BuzTab>;
    c14_other_buzborg = props::c14_other::<BuzBorg>;
    c14_other_buzsalt = props::c14_other::<BuzSalt>;
    c14_other_fast = props::c14_other::<Fast>;
    c14_other_gear = props::c14_other::<Gear>;
    c14_other_gzip = props::c14_other::<Gzip>;
    c14_other_mii = props::c14_other::<Mii>;
    c14_other_pigz = props::c14_other::<Pigz>;
    c14_other_ram = props::c14_other::<Ram>;
    c14_other_zpaq = props::c14_other::<Zpaq>;
    c14_other_zstd = props::c14_other::<Zstd>;
    c14_indep_bup = props::c14_indep::<Bup>;
    c14_indep_buz = props::c14_indep::<Buz>;
    c14_indep_buztab = props::c14_indep::<BuzTab>;
    c14_indep_buzborg = props::c14_indep::<BuzBorg>;
    c14_indep_buzsalt = props::c14_indep::<BuzSalt>;
    c14_indep_fast = props::c14_indep::<Fast>;
    c14_indep_gear = props::c14_indep::<Gear>;
    c14_indep_gzip = props::c14_indep::<Gzip>;
    c14_indep_mii = props::c14_indep::<Mii>;
    c14_indep_pigz = props::c14_indep::<Pigz>;
    c14_indep_ram = props::c14_indep::<Ram>;
    c14_indep_zpaq = props::c14_indep::<Zpaq>;
    c14_indep_zstd = props::c14_indep::<Zstd>;
    c17_incr_bup = props::c17_incr::<Bup>;
    c17_incr_buz = props::c17_incr::<Buz>;
    c17_incr_buztab = props::c17_incr::<BuzTab>;
    c17_incr_buzborg = props::c17_incr::<BuzBorg>;
    c17_incr_buzsalt = props::c17_incr::<BuzSalt>;
    c17_incr_fast = props::c17_incr::<Fast>;
    c17_incr_gear = props::c17_incr::<Gear>;
    c17_incr_gzip = props::c17_incr::<Gzip>;
    c17_incr_mii = props::c17_incr::<Mii>;
    c17_incr_pigz = props::c17_incr::<Pigz>;
    c17_incr_ram = props::c17_incr::<Ram>;
    c17_incr_zpaq = props::c17_incr::<Zpaq>;
    c17_incr_zstd = props::c17_incr::<Zstd>;
    c17_fce_bup = props::c17_fce::<Bup>;
    c17_fce_buz = props::c17_fce::<Buz>;
    c17_fce_buztab = props::c17_fce::<BuzTab>;
    c17_fce_buzborg = props::c17_fce::<BuzBorg>;
    c17_fce_buzsalt = props::c17_fce::<BuzSalt>;
    c17_fce_fast = props::c17_fce::<Fast>;
    c17_fce_gear = props::c17_fce::<Gear>;
    c17_fce_gzip = props::c17_fce::<Gzip>;
    c17_fce_mii = props::c17_fce::<Mii>;
    c17_fce_pigz = props::c17_fce::<Pigz>;
    c17_fce_ram = props::c17_fce::<Ram>;
    c17_fce_zpaq = props::c17_fce::<Zpaq>;
    c17_fce_zstd = props::c17_fce::<Zstd>;
    c17_iter_bup = props::c17_iter::<Bup>;
    c17_iter_buz = props::c17_iter::<Buz>;
    c17_iter_buztab = props::c17_iter::<BuzTab>;
    c17_iter_buzborg = props::c17_iter::<BuzBorg>;
    c17_iter_buzsalt = props::c17_iter::<BuzSalt>;
    c17_iter_fast = props::c17_iter::<Fast>;
    c17_iter_gear = props::c17_iter::<Gear>;
    c17_iter_gzip = props::c17_iter::<Gzip>;
    c17_iter_mii = props::c17_iter::<Mii>;
    c17_iter_pigz = props::c17_iter::<Pigz>;
    c17_iter_ram = props::c17_iter::<Ram>;
    c17_iter_zpaq = props::c17_iter::<Zpaq>;
    c17_iter_zstd = props::c17_iter::<Zstd>;
    c18_incr_bup = props::c18_incr::<Bup>;
    c18_incr_buz = props::c18_incr::<Buz>;
    c18_incr_buztab = props::c18_incr::<BuzTab>;
    c18_incr_buzborg = props::c18_incr::<BuzBorg>;
    c18_incr_buzsalt = props::c18_incr::<BuzSalt>;
    c18_incr_fast = props::c18_incr::<Fast>;
    c18_incr_gear = props::c18_incr::<Gear>;
    c18_incr_gzip = props::c18_incr::<Gzip>;
    c18_incr_mii = props::c18_incr::<Mii>;
    c18_incr_pigz = props::c18_incr::<Pigz>;
    c18_incr_ram = props::c18_incr::<Ram>;
    c18_incr_zpaq = props::c18_incr::<Zpaq>;
    c18_incr_zstd = props::c18_incr::<Zstd>;
    c18_fce_bup = props::c18_fce::<Bup>;
    c18_fce_buz = props::c18_fce::<Buz>;
    c18_fce_buztab = props::c18_fce::<BuzTab>;
    c18_fce_buzborg = props::c18_fce::<BuzBorg>;
    c18_fce_buzsalt = props::c18_fce::<BuzSalt>;
    c18_fce_fast = props::c18_fce::<Fast>;
    c18_fce_gear = props::c18_fce::<Gear>;
    c18_fce_gzip = props::c18_fce::<Gzip>;
    c18_fce_mii = props::c18_fce::<Mii>;
    c18_fce_pigz = props::c18_fce::<Pigz>;
    c18_fce_ram = props::c18_fce::<Ram>;
    c18_fce_zpaq = props::c18_fce::<Zpaq>;
    c18_fce_zstd = props::c18_fce::<Zstd>;
    c14_clone_incr_bup = props::c14_clone_incr::<Bup>;
    c14_clone_incr_buz = props::c14_clone_incr::<Buz>;
    c14_clone_incr_fast = props::c14_clone_incr::<Fast>;
    c14_clone_incr_gear = props::c14_clone_incr::<Gear>;
    c14_clone_incr_gzip = props::c14_clone_incr::<Gzip>;
    c14_clone_incr_pigz = props::c14_clone_incr::<Pigz>;
    c14_clone_incr_ram = props::c14_clone_incr::<Ram>;
    c14_clone_state_bup = props::c14_clone_state::<Bup>;
    c14_clone_state_buz = props::c14_clone_state::<Buz>;
    c14_clone_state_fast = props::c14_clone_state::<Fast>;
    c14_clone_state_gear = props::c14_clone_state::<Gear>;
    c14_clone_state_gzip = props::c14_clone_state::<Gzip>;
    c14_clone_state_pigz = props::c14_clone_state::<Pigz>;
    c14_clone_state_ram = props::c14_clone_state::<Ram>;
    c14_clone_cfg_bup = props::c14_clone_cfg::<Bup>;
    c14_clone_cfg_buz = props::c14_clone_cfg::<Buz>;
    c14_clone_cfg_buztab = props::c14_clone_cfg::<BuzTab>;
    c14_clone_cfg_buzborg = props::c14_clone_cfg::<BuzBorg>;
    c14_clone_cfg_buzsalt = props::c14_clone_cfg::<BuzSalt>;
    c14_clone_cfg_fast = props::c14_clone_cfg::<Fast>;
    c14_clone_cfg_gear = props::c14_clone_cfg::<Gear>;
    c14_clone_cfg_gzip = props::c14_clone_cfg::<Gzip>;
    c14_clone_cfg_mii = props::c14_clone_cfg::<Mii>;
    c14_clone_cfg_pigz = props::c14_clone_cfg::<Pigz>;
    c14_clone_cfg_ram = props::c14_clone_cfg::<Ram>;
    c14_clone_cfg_zpaq = props::c14_clone_cfg::<Zpaq>;
    c14_clone_cfg_zstd = props::c14_clone_cfg::<Zstd>;
    c14_eq_incr_bup = props::c14_eq_incr::<Bup>;
    c14_eq_incr_buz = props::c14_eq_incr::<Buz>;
    c14_eq_incr_fast = props::c14_eq_incr::<Fast>;
    c14_eq_incr_ram = props::c14_eq_incr::<Ram>;
    c14_eq_incr_zstd = props::c14_eq_incr::<Zstd>;
    c14_eq_state_bup = props::c14_eq_state::<Bup>;
    c14_eq_state_buz = props::c14_eq_state::<Buz>;
    c14_eq_state_fast = props::c14_eq_state::<Fast>;
    c14_eq_state_gear = props::c14_eq_state::<Gear>;
    c14_eq_state_ram = props::c14_eq_state::<Ram>;
    c14_eq_state_zstd = props::c14_eq_state::<Zstd>;
    c07_bup = props::c07::<Bup>;
    c07_buz = props::c07::<Buz>;
    c07_buztab = props::c07::<BuzTab>;
    c07_buzborg = props::c07::<BuzBorg>;
    c07_gzip = props::c07::<Gzip>;
    c07_zstd = props::c07::<Zstd>;
    c02_fast_min0 = props::c02_fast_min0;
    c13_bup = special::c13_bup;
    c13_buz = special::c13_buz;
    c13_fast = special::c13_fast;
    c13_gear = special::c13_gear;
    c13_gzip = special::c13_gzip;
    c13_mii = special::c13_mii;
    c13_ram = special::c13_ram;
    c13_pigz = special::c13_pigz;
    c13_zpaq = special::c13_zpaq;
    c13_zstd = special::c13_zstd;
    c13_roll = special::c13_roll;
    c12_zpaq_any = special::c12_zpaq_any;
    c12_zstd_any = special::c12_zstd_any;
    c12_default_eq = special::c12_default_eq;
    c12_borg_table = special::c12_borg_table;
    c12_tables = special::c12_tables;
    c14_eq_roll = special::c14_eq_roll;
    c14_eq_bup = special::c14_eq_bup;
    c14_eq_buz = special::c14_eq_buz;
    c14_eq_fast = special::c14_eq_fast;
    c14_eq_gzip = special::c14_eq_gzip;
    c14_eq_pigz = special::c14_eq_pigz;
    c14_eq_ram = special::c14_eq_ram;
    c14_eq_zpaq = special::c14_eq_zpaq;
    c14_eq_zstd = special::c14_eq_zstd;
    c15_u64 = special::c15_u64;
    c15_i64 = special::c15_i64;
    c15_u8 = special::c15_u8;
    c15_i32 = special::c15_i32;
    c15_char_pair = special::c15_char_pair;
    c16_roll = special::c16_roll;
    c16_push = special::c16_push;
}
