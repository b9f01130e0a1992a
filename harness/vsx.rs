//! Primitives of the symbolic executor; under cfg(vnative) the same harness replays recorded inputs on the real code.
#![allow(dead_code, static_mut_refs)]
#[cfg(not(vnative))]
mod raw { extern "C" { pub fn sx_u8() -> u8; pub fn sx_u32() -> u32; pub fn sx_bool() -> bool; pub fn sx_pick(n: u32) -> u32; pub fn sx_assume(b: bool); pub fn sx_check(b: bool, id: u32, known: u32); pub fn sx_cover(id: u32); pub fn sx_obs(x: u64); pub fn sx_conc(x: u64) -> u64; } }
#[cfg(not(vnative))]
mod imp {
    use super::raw;
    pub fn native() -> bool { false }
    pub fn sx_u8() -> u8 { unsafe { raw::sx_u8() } }
    pub fn sx_u32() -> u32 { unsafe { raw::sx_u32() } }
    pub fn sx_bool() -> bool { unsafe { raw::sx_bool() } }
    pub fn sx_pick(n: u32) -> u32 { unsafe { raw::sx_pick(n) } }
    pub fn sx_assume(b: bool) { unsafe { raw::sx_assume(b) } }
    pub fn sx_check(b: bool, id: u32, known: u32) { unsafe { raw::sx_check(b, id, known) } }
    pub fn sx_cover(id: u32) { unsafe { raw::sx_cover(id) } }
    pub fn sx_obs(x: u64) { unsafe { raw::sx_obs(x) } }
    pub fn sx_conc(x: u64) -> u64 { unsafe { raw::sx_conc(x) } }
    pub fn sx_note(_s: &str) {}
}
#[cfg(vnative)]
mod imp {
    pub static mut IN: Vec<u64> = Vec::new(); pub static mut AT: usize = 0; pub static mut OBS: Vec<u64> = Vec::new(); pub static mut FAILED: Vec<(u32, u32)> = Vec::new(); pub static mut NOTES: Vec<String> = Vec::new();
    pub fn reset(v: Vec<u64>) { unsafe { IN = v; AT = 0; OBS = Vec::new(); FAILED = Vec::new(); NOTES = Vec::new(); } }
    fn next() -> u64 { unsafe { let r = if AT < IN.len() { IN[AT] } else { 0 }; AT += 1; r } }
    pub fn native() -> bool { true }
    pub fn sx_u8() -> u8 { next() as u8 }
    pub fn sx_u32() -> u32 { next() as u32 }
    pub fn sx_bool() -> bool { next() & 1 == 1 }
    pub fn sx_pick(n: u32) -> u32 { (next() as u32) % n }
    pub fn sx_assume(b: bool) { if !b { sx_note("unrealizable"); } }
    pub fn sx_check(b: bool, id: u32, known: u32) { if !b { unsafe { FAILED.push((id, known)); } } }
    pub fn sx_cover(_id: u32) {}
    pub fn sx_obs(x: u64) { unsafe { OBS.push(x); } }
    pub fn sx_conc(x: u64) -> u64 { x }
    pub fn sx_note(s: &str) { unsafe { NOTES.push(s.to_string()); } }
}
pub use imp::*;
pub fn sx_fail(id: u32) { sx_check(false, id, 0); }
