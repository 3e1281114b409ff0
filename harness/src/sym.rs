//! Interface between the scenarios and what runs them: the symbolic executor (`/verif/engine`),
//! where these functions are intrinsics, or the native replay (`/verif/replay`), which defines
//! them from a replay file.

pub mod raw {
    extern "C" {
        pub fn hr_sym_u8() -> u8;
        pub fn hr_sym_u16() -> u16;
        pub fn hr_sym_u32() -> u32;
        pub fn hr_sym_u64() -> u64;
        pub fn hr_choice(n: u64) -> u64;
        pub fn hr_param(i: u32) -> u64;
        pub fn hr_id(v: u64) -> u64;
        pub fn hr_assume(b: bool);
        pub fn hr_assert(b: bool, id: u32);
        pub fn hr_cover(id: u32);
        pub fn hr_obs(v: u64);
        pub fn hr_heap() -> u64;
        pub fn hr_uf32(id: u32, arg: u8) -> u32;
        pub fn hr_table32(p: *mut u32, id: u32);
        pub fn hr_table64(p: *mut u64, id: u32);
    }
}

/// any byte
pub fn any_u8() -> u8 {
    unsafe { raw::hr_sym_u8() }
}
/// any 32 bit value
pub fn any_u32() -> u32 {
    unsafe { raw::hr_sym_u32() }
}
/// any 64 bit value
pub fn any_u64() -> u64 {
    unsafe { raw::hr_sym_u64() }
}
/// any value below `n`, all explored one by one
pub fn choice(n: usize) -> usize {
    unsafe { raw::hr_choice(n as u64) as usize }
}
/// i-th parameter of the job
pub fn param(i: u32) -> u64 {
    unsafe { raw::hr_param(i) }
}
/// `v`, but not known to the compiler
pub fn opaque(v: u64) -> u64 {
    unsafe { raw::hr_id(v) }
}
pub fn assume(b: bool) {
    unsafe { raw::hr_assume(b) }
}
pub fn check(b: bool, id: u32) {
    unsafe { raw::hr_assert(b, id) }
}
/// point that has to be reached
pub fn cover(id: u32) {
    unsafe { raw::hr_cover(id) }
}
/// value compared between the symbolic run and its native replay
pub fn obs(v: u64) {
    unsafe { raw::hr_obs(v) }
}
/// bytes allocated at present
pub fn heap() -> u64 {
    unsafe { raw::hr_heap() }
}
/// value of an arbitrary function from bytes to 32 bit values
pub fn uf32(id: u32, arg: u8) -> u32 {
    unsafe { raw::hr_uf32(id, arg) }
}
/// fill a table with arbitrary values
pub fn any_table32(t: &mut [u32; 256], id: u32) {
    unsafe { raw::hr_table32(t.as_mut_ptr(), id) }
}
pub fn any_table64(t: &mut [u64; 256], id: u32) {
    unsafe { raw::hr_table64(t.as_mut_ptr(), id) }
}
