//! C19: the byte functions and tables of local_binary_patterns, for every byte.
use imageproc::local_binary_patterns::*;
fn rot(b: u8, i: u32) -> u8 { if i == 0 { b } else { (b >> i) | (b << (8 - i)) } }
#[kani::proof]
#[kani::unwind(9)]
fn c19_min_shift() {
    let b: u8 = kani::any();
    let m = min_shift(b);
    let mut hit = false;
    let mut i = 0;
    while i < 8 { assert!(m <= rot(b, i), "C19 min_shift is a lower bound of all rotations"); hit |= m == rot(b, i); i += 1; }
    assert!(hit, "C19 min_shift is one of the rotations");
}
fn transitions(b: u8) -> u32 { let mut n = 0; let mut i = 0; while i < 8 { if (b >> i) & 1 != (b >> ((i + 1) % 8)) & 1 { n += 1 } i += 1; } n }
#[kani::proof]
#[kani::unwind(9)]
fn c19_count_transitions() {
    let b: u8 = kani::any();
    assert!(count_transitions(b) == transitions(b), "C19 count_transitions counts circular bit changes");
}
#[kani::proof]
#[kani::unwind(9)]
fn c19_min_shift_table() {
    let b: u8 = kani::any();
    let mut m = b;
    let mut i = 1;
    while i < 8 { if rot(b, i) < m { m = rot(b, i) } i += 1; }
    assert!(MIN_SHIFT[b as usize] == m, "C19 MIN_SHIFT table entry");
}
#[kani::proof]
#[kani::unwind(9)]
fn c19_uniform_table() {
    let b: u8 = kani::any();
    let mut m = b;
    let mut i = 1;
    while i < 8 { if rot(b, i) < m { m = rot(b, i) } i += 1; }
    assert!(UNIFORM_REPRESENTATIVE_2[b as usize] == if transitions(b) <= 2 { m } else { 0b10101010 }, "C19 UNIFORM_REPRESENTATIVE_2 table entry");
}
