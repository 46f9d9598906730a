//! Generated by gen_fmt.py.

pub const FILLS: [u32; 4] = [32, 42, 48, 233];

/// kind 0 '', 1 'e', 2 'E'; fill index; align 0 none, 1 '<', 2 '^', 3 '>'
#[allow(clippy::all)]
pub fn fmt<T: std::fmt::Display + std::fmt::LowerExp + std::fmt::UpperExp>(x: &T, kind: u8, fill: u8, align: u8, plus: bool, zero: bool, w: Option<usize>, p: Option<usize>) -> String {
    match (kind, fill, align, plus, zero, w, p) {
        (0, 0, 0, false, false, None, None) => format!("{:}", x),
        (0, 0, 0, false, false, None, Some(p)) => format!("{:.p$}", x, p = p),
        (0, 0, 0, false, false, Some(w), None) => format!("{:w$}", x, w = w),
        (0, 0, 0, false, false, Some(w), Some(p)) => format!("{:w$.p$}", x, w = w, p = p),
        (0, 0, 0, false, true, Some(w), None) => format!("{:0w$}", x, w = w),
        (0, 0, 0, false, true, Some(w), Some(p)) => format!("{:0w$.p$}", x, w = w, p = p),
        (0, 0, 0, true, false, None, None) => format!("{:+}", x),
        (0, 0, 0, true, false, None, Some(p)) => format!("{:+.p$}", x, p = p),
        (0, 0, 0, true, false, Some(w), None) => format!("{:+w$}", x, w = w),
        (0, 0, 0, true, false, Some(w), Some(p)) => format!("{:+w$.p$}", x, w = w, p = p),
        (0, 0, 0, true, true, Some(w), None) => format!("{:+0w$}", x, w = w),
        (0, 0, 0, true, true, Some(w), Some(p)) => format!("{:+0w$.p$}", x, w = w, p = p),
        (0, 0, 1, false, false, None, None) => format!("{:<}", x),
        (0, 0, 1, false, false, None, Some(p)) => format!("{:<.p$}", x, p = p),
        (0, 0, 1, false, false, Some(w), None) => format!("{:<w$}", x, w = w),
        (0, 0, 1, false, false, Some(w), Some(p)) => format!("{:<w$.p$}", x, w = w, p = p),
        (0, 0, 1, false, true, Some(w), None) => format!("{:<0w$}", x, w = w),
        (0, 0, 1, false, true, Some(w), Some(p)) => format!("{:<0w$.p$}", x, w = w, p = p),
        (0, 0, 1, true, false, None, None) => format!("{:<+}", x),
        (0, 0, 1, true, false, None, Some(p)) => format!("{:<+.p$}", x, p = p),
        (0, 0, 1, true, false, Some(w), None) => format!("{:<+w$}", x, w = w),
        (0, 0, 1, true, false, Some(w), Some(p)) => format!("{:<+w$.p$}", x, w = w, p = p),
        (0, 0, 1, true, true, Some(w), None) => format!("{:<+0w$}", x, w = w),
        (0, 0, 1, true, true, Some(w), Some(p)) => format!("{:<+0w$.p$}", x, w = w, p = p),
        (0, 0, 2, false, false, None, None) => format!("{:^}", x),
        (0, 0, 2, false, false, None, Some(p)) => format!("{:^.p$}", x, p = p),
        (0, 0, 2, false, false, Some(w), None) => format!("{:^w$}", x, w = w),
        (0, 0, 2, false, false, Some(w), Some(p)) => format!("{:^w$.p$}", x, w = w, p = p),
        (0, 0, 2, false, true, Some(w), None) => format!("{:^0w$}", x, w = w),
        (0, 0, 2, false, true, Some(w), Some(p)) => format!("{:^0w$.p$}", x, w = w, p = p),
        (0, 0, 2, true, false, None, None) => format!("{:^+}", x),
        (0, 0, 2, true, false, None, Some(p)) => format!("{:^+.p$}", x, p = p),
        (0, 0, 2, true, false, Some(w), None) => format!("{:^+w$}", x, w = w),
        (0, 0, 2, true, false, Some(w), Some(p)) => format!("{:^+w$.p$}", x, w = w, p = p),
        (0, 0, 2, true, true, Some(w), None) => format!("{:^+0w$}", x, w = w),
        (0, 0, 2, true, true, Some(w), Some(p)) => format!("{:^+0w$.p$}", x, w = w, p = p),
        (0, 0, 3, false, false, None, None) => format!("{:>}", x),
        (0, 0, 3, false, false, None, Some(p)) => format!("{:>.p$}", x, p = p),
        (0, 0, 3, false, false, Some(w), None) => format!("{:>w$}", x, w = w),
        (0, 0, 3, false, false, Some(w), Some(p)) => format!("{:>w$.p$}", x, w = w, p = p),
        (0, 0, 3, false, true, Some(w), None) => format!("{:>0w$}", x, w = w),
        (0, 0, 3, false, true, Some(w), Some(p)) => format!("{:>0w$.p$}", x, w = w, p = p),
        (0, 0, 3, true, false, None, None) => format!("{:>+}", x),
        (0, 0, 3, true, false, None, Some(p)) => format!("{:>+.p$}", x, p = p),
        (0, 0, 3, true, false, Some(w), None) => format!("{:>+w$}", x, w = w),
        (0, 0, 3, true, false, Some(w), Some(p)) => format!("{:>+w$.p$}", x, w = w, p = p),
        (0, 0, 3, true, true, Some(w), None) => format!("{:>+0w$}", x, w = w),
        (0, 0, 3, true, true, Some(w), Some(p)) => format!("{:>+0w$.p$}", x, w = w, p = p),
        (0, 1, 1, false, false, None, None) => format!("{:*<}", x),
        (0, 1, 1, false, false, None, Some(p)) => format!("{:*<.p$}", x, p = p),
        (0, 1, 1, false, false, Some(w), None) => format!("{:*<w$}", x, w = w),
        (0, 1, 1, false, false, Some(w), Some(p)) => format!("{:*<w$.p$}", x, w = w, p = p),
        (0, 1, 1, false, true, Some(w), None) => format!("{:*<0w$}", x, w = w),
        (0, 1, 1, false, true, Some(w), Some(p)) => format!("{:*<0w$.p$}", x, w = w, p = p),
        (0, 1, 1, true, false, None, None) => format!("{:*<+}", x),
        (0, 1, 1, true, false, None, Some(p)) => format!("{:*<+.p$}", x, p = p),
        (0, 1, 1, true, false, Some(w), None) => format!("{:*<+w$}", x, w = w),
        (0, 1, 1, true, false, Some(w), Some(p)) => format!("{:*<+w$.p$}", x, w = w, p = p),
        (0, 1, 1, true, true, Some(w), None) => format!("{:*<+0w$}", x, w = w),
        (0, 1, 1, true, true, Some(w), Some(p)) => format!("{:*<+0w$.p$}", x, w = w, p = p),
        (0, 1, 2, false, false, None, None) => format!("{:*^}", x),
        (0, 1, 2, false, false, None, Some(p)) => format!("{:*^.p$}", x, p = p),
        (0, 1, 2, false, false, Some(w), None) => format!("{:*^w$}", x, w = w),
        (0, 1, 2, false, false, Some(w), Some(p)) => format!("{:*^w$.p$}", x, w = w, p = p),
        (0, 1, 2, false, true, Some(w), None) => format!("{:*^0w$}", x, w = w),
        (0, 1, 2, false, true, Some(w), Some(p)) => format!("{:*^0w$.p$}", x, w = w, p = p),
        (0, 1, 2, true, false, None, None) => format!("{:*^+}", x),
        (0, 1, 2, true, false, None, Some(p)) => format!("{:*^+.p$}", x, p = p),
        (0, 1, 2, true, false, Some(w), None) => format!("{:*^+w$}", x, w = w),
        (0, 1, 2, true, false, Some(w), Some(p)) => format!("{:*^+w$.p$}", x, w = w, p = p),
        (0, 1, 2, true, true, Some(w), None) => format!("{:*^+0w$}", x, w = w),
        (0, 1, 2, true, true, Some(w), Some(p)) => format!("{:*^+0w$.p$}", x, w = w, p = p),
        (0, 1, 3, false, false, None, None) => format!("{:*>}", x),
        (0, 1, 3, false, false, None, Some(p)) => format!("{:*>.p$}", x, p = p),
        (0, 1, 3, false, false, Some(w), None) => format!("{:*>w$}", x, w = w),
        (0, 1, 3, false, false, Some(w), Some(p)) => format!("{:*>w$.p$}", x, w = w, p = p),
        (0, 1, 3, false, true, Some(w), None) => format!("{:*>0w$}", x, w = w),
        (0, 1, 3, false, true, Some(w), Some(p)) => format!("{:*>0w$.p$}", x, w = w, p = p),
        (0, 1, 3, true, false, None, None) => format!("{:*>+}", x),
        (0, 1, 3, true, false, None, Some(p)) => format!("{:*>+.p$}", x, p = p),
        (0, 1, 3, true, false, Some(w), None) => format!("{:*>+w$}", x, w = w),
        (0, 1, 3, true, false, Some(w), Some(p)) => format!("{:*>+w$.p$}", x, w = w, p = p),
        (0, 1, 3, true, true, Some(w), None) => format!("{:*>+0w$}", x, w = w),
        (0, 1, 3, true, true, Some(w), Some(p)) => format!("{:*>+0w$.p$}", x, w = w, p = p),
        (0, 2, 1, false, false, None, None) => format!("{:0<}", x),
        (0, 2, 1, false, false, None, Some(p)) => format!("{:0<.p$}", x, p = p),
        (0, 2, 1, false, false, Some(w), None) => format!("{:0<w$}", x, w = w),
        (0, 2, 1, false, false, Some(w), Some(p)) => format!("{:0<w$.p$}", x, w = w, p = p),
        (0, 2, 1, false, true, Some(w), None) => format!("{:0<0w$}", x, w = w),
        (0, 2, 1, false, true, Some(w), Some(p)) => format!("{:0<0w$.p$}", x, w = w, p = p),
        (0, 2, 1, true, false, None, None) => format!("{:0<+}", x),
        (0, 2, 1, true, false, None, Some(p)) => format!("{:0<+.p$}", x, p = p),
        (0, 2, 1, true, false, Some(w), None) => format!("{:0<+w$}", x, w = w),
        (0, 2, 1, true, false, Some(w), Some(p)) => format!("{:0<+w$.p$}", x, w = w, p = p),
        (0, 2, 1, true, true, Some(w), None) => format!("{:0<+0w$}", x, w = w),
        (0, 2, 1, true, true, Some(w), Some(p)) => format!("{:0<+0w$.p$}", x, w = w, p = p),
        (0, 2, 2, false, false, None, None) => format!("{:0^}", x),
        (0, 2, 2, false, false, None, Some(p)) => format!("{:0^.p$}", x, p = p),
        (0, 2, 2, false, false, Some(w), None) => format!("{:0^w$}", x, w = w),
        (0, 2, 2, false, false, Some(w), Some(p)) => format!("{:0^w$.p$}", x, w = w, p = p),
        (0, 2, 2, false, true, Some(w), None) => format!("{:0^0w$}", x, w = w),
        (0, 2, 2, false, true, Some(w), Some(p)) => format!("{:0^0w$.p$}", x, w = w, p = p),
        (0, 2, 2, true, false, None, None) => format!("{:0^+}", x),
        (0, 2, 2, true, false, None, Some(p)) => format!("{:0^+.p$}", x, p = p),
        (0, 2, 2, true, false, Some(w), None) => format!("{:0^+w$}", x, w = w),
        (0, 2, 2, true, false, Some(w), Some(p)) => format!("{:0^+w$.p$}", x, w = w, p = p),
        (0, 2, 2, true, true, Some(w), None) => format!("{:0^+0w$}", x, w = w),
        (0, 2, 2, true, true, Some(w), Some(p)) => format!("{:0^+0w$.p$}", x, w = w, p = p),
        (0, 2, 3, false, false, None, None) => format!("{:0>}", x),
        (0, 2, 3, false, false, None, Some(p)) => format!("{:0>.p$}", x, p = p),
        (0, 2, 3, false, false, Some(w), None) => format!("{:0>w$}", x, w = w),
        (0, 2, 3, false, false, Some(w), Some(p)) => format!("{:0>w$.p$}", x, w = w, p = p),
        (0, 2, 3, false, true, Some(w), None) => format!("{:0>0w$}", x, w = w),
        (0, 2, 3, false, true, Some(w), Some(p)) => format!("{:0>0w$.p$}", x, w = w, p = p),
        (0, 2, 3, true, false, None, None) => format!("{:0>+}", x),
        (0, 2, 3, true, false, None, Some(p)) => format!("{:0>+.p$}", x, p = p),
        (0, 2, 3, true, false, Some(w), None) => format!("{:0>+w$}", x, w = w),
        (0, 2, 3, true, false, Some(w), Some(p)) => format!("{:0>+w$.p$}", x, w = w, p = p),
        (0, 2, 3, true, true, Some(w), None) => format!("{:0>+0w$}", x, w = w),
        (0, 2, 3, true, true, Some(w), Some(p)) => format!("{:0>+0w$.p$}", x, w = w, p = p),
        (0, 3, 1, false, false, None, None) => format!("{:é<}", x),
        (0, 3, 1, false, false, None, Some(p)) => format!("{:é<.p$}", x, p = p),
        (0, 3, 1, false, false, Some(w), None) => format!("{:é<w$}", x, w = w),
        (0, 3, 1, false, false, Some(w), Some(p)) => format!("{:é<w$.p$}", x, w = w, p = p),
        (0, 3, 1, false, true, Some(w), None) => format!("{:é<0w$}", x, w = w),
        (0, 3, 1, false, true, Some(w), Some(p)) => format!("{:é<0w$.p$}", x, w = w, p = p),
        (0, 3, 1, true, false, None, None) => format!("{:é<+}", x),
        (0, 3, 1, true, false, None, Some(p)) => format!("{:é<+.p$}", x, p = p),
        (0, 3, 1, true, false, Some(w), None) => format!("{:é<+w$}", x, w = w),
        (0, 3, 1, true, false, Some(w), Some(p)) => format!("{:é<+w$.p$}", x, w = w, p = p),
        (0, 3, 1, true, true, Some(w), None) => format!("{:é<+0w$}", x, w = w),
        (0, 3, 1, true, true, Some(w), Some(p)) => format!("{:é<+0w$.p$}", x, w = w, p = p),
        (0, 3, 2, false, false, None, None) => format!("{:é^}", x),
        (0, 3, 2, false, false, None, Some(p)) => format!("{:é^.p$}", x, p = p),
        (0, 3, 2, false, false, Some(w), None) => format!("{:é^w$}", x, w = w),
        (0, 3, 2, false, false, Some(w), Some(p)) => format!("{:é^w$.p$}", x, w = w, p = p),
        (0, 3, 2, false, true, Some(w), None) => format!("{:é^0w$}", x, w = w),
        (0, 3, 2, false, true, Some(w), Some(p)) => format!("{:é^0w$.p$}", x, w = w, p = p),
        (0, 3, 2, true, false, None, None) => format!("{:é^+}", x),
        (0, 3, 2, true, false, None, Some(p)) => format!("{:é^+.p$}", x, p = p),
        (0, 3, 2, true, false, Some(w), None) => format!("{:é^+w$}", x, w = w),
        (0, 3, 2, true, false, Some(w), Some(p)) => format!("{:é^+w$.p$}", x, w = w, p = p),
        (0, 3, 2, true, true, Some(w), None) => format!("{:é^+0w$}", x, w = w),
        (0, 3, 2, true, true, Some(w), Some(p)) => format!("{:é^+0w$.p$}", x, w = w, p = p),
        (0, 3, 3, false, false, None, None) => format!("{:é>}", x),
        (0, 3, 3, false, false, None, Some(p)) => format!("{:é>.p$}", x, p = p),
        (0, 3, 3, false, false, Some(w), None) => format!("{:é>w$}", x, w = w),
        (0, 3, 3, false, false, Some(w), Some(p)) => format!("{:é>w$.p$}", x, w = w, p = p),
        (0, 3, 3, false, true, Some(w), None) => format!("{:é>0w$}", x, w = w),
        (0, 3, 3, false, true, Some(w), Some(p)) => format!("{:é>0w$.p$}", x, w = w, p = p),
        (0, 3, 3, true, false, None, None) => format!("{:é>+}", x),
        (0, 3, 3, true, false, None, Some(p)) => format!("{:é>+.p$}", x, p = p),
        (0, 3, 3, true, false, Some(w), None) => format!("{:é>+w$}", x, w = w),
        (0, 3, 3, true, false, Some(w), Some(p)) => format!("{:é>+w$.p$}", x, w = w, p = p),
        (0, 3, 3, true, true, Some(w), None) => format!("{:é>+0w$}", x, w = w),
        (0, 3, 3, true, true, Some(w), Some(p)) => format!("{:é>+0w$.p$}", x, w = w, p = p),
        (1, 0, 0, false, false, None, None) => format!("{:e}", x),
        (1, 0, 0, false, false, None, Some(p)) => format!("{:.p$e}", x, p = p),
        (1, 0, 0, false, false, Some(w), None) => format!("{:w$e}", x, w = w),
        (1, 0, 0, false, false, Some(w), Some(p)) => format!("{:w$.p$e}", x, w = w, p = p),
        (1, 0, 0, false, true, Some(w), None) => format!("{:0w$e}", x, w = w),
        (1, 0, 0, false, true, Some(w), Some(p)) => format!("{:0w$.p$e}", x, w = w, p = p),
        (1, 0, 0, true, false, None, None) => format!("{:+e}", x),
        (1, 0, 0, true, false, None, Some(p)) => format!("{:+.p$e}", x, p = p),
        (1, 0, 0, true, false, Some(w), None) => format!("{:+w$e}", x, w = w),
        (1, 0, 0, true, false, Some(w), Some(p)) => format!("{:+w$.p$e}", x, w = w, p = p),
        (1, 0, 0, true, true, Some(w), None) => format!("{:+0w$e}", x, w = w),
        (1, 0, 0, true, true, Some(w), Some(p)) => format!("{:+0w$.p$e}", x, w = w, p = p),
        (1, 0, 1, false, false, None, None) => format!("{:<e}", x),
        (1, 0, 1, false, false, None, Some(p)) => format!("{:<.p$e}", x, p = p),
        (1, 0, 1, false, false, Some(w), None) => format!("{:<w$e}", x, w = w),
        (1, 0, 1, false, false, Some(w), Some(p)) => format!("{:<w$.p$e}", x, w = w, p = p),
        (1, 0, 1, false, true, Some(w), None) => format!("{:<0w$e}", x, w = w),
        (1, 0, 1, false, true, Some(w), Some(p)) => format!("{:<0w$.p$e}", x, w = w, p = p),
        (1, 0, 1, true, false, None, None) => format!("{:<+e}", x),
        (1, 0, 1, true, false, None, Some(p)) => format!("{:<+.p$e}", x, p = p),
        (1, 0, 1, true, false, Some(w), None) => format!("{:<+w$e}", x, w = w),
        (1, 0, 1, true, false, Some(w), Some(p)) => format!("{:<+w$.p$e}", x, w = w, p = p),
        (1, 0, 1, true, true, Some(w), None) => format!("{:<+0w$e}", x, w = w),
        (1, 0, 1, true, true, Some(w), Some(p)) => format!("{:<+0w$.p$e}", x, w = w, p = p),
        (1, 0, 2, false, false, None, None) => format!("{:^e}", x),
        (1, 0, 2, false, false, None, Some(p)) => format!("{:^.p$e}", x, p = p),
        (1, 0, 2, false, false, Some(w), None) => format!("{:^w$e}", x, w = w),
        (1, 0, 2, false, false, Some(w), Some(p)) => format!("{:^w$.p$e}", x, w = w, p = p),
        (1, 0, 2, false, true, Some(w), None) => format!("{:^0w$e}", x, w = w),
        (1, 0, 2, false, true, Some(w), Some(p)) => format!("{:^0w$.p$e}", x, w = w, p = p),
        (1, 0, 2, true, false, None, None) => format!("{:^+e}", x),
        (1, 0, 2, true, false, None, Some(p)) => format!("{:^+.p$e}", x, p = p),
        (1, 0, 2, true, false, Some(w), None) => format!("{:^+w$e}", x, w = w),
        (1, 0, 2, true, false, Some(w), Some(p)) => format!("{:^+w$.p$e}", x, w = w, p = p),
        (1, 0, 2, true, true, Some(w), None) => format!("{:^+0w$e}", x, w = w),
        (1, 0, 2, true, true, Some(w), Some(p)) => format!("{:^+0w$.p$e}", x, w = w, p = p),
        (1, 0, 3, false, false, None, None) => format!("{:>e}", x),
        (1, 0, 3, false, false, None, Some(p)) => format!("{:>.p$e}", x, p = p),
        (1, 0, 3, false, false, Some(w), None) => format!("{:>w$e}", x, w = w),
        (1, 0, 3, false, false, Some(w), Some(p)) => format!("{:>w$.p$e}", x, w = w, p = p),
        (1, 0, 3, false, true, Some(w), None) => format!("{:>0w$e}", x, w = w),
        (1, 0, 3, false, true, Some(w), Some(p)) => format!("{:>0w$.p$e}", x, w = w, p = p),
        (1, 0, 3, true, false, None, None) => format!("{:>+e}", x),
        (1, 0, 3, true, false, None, Some(p)) => format!("{:>+.p$e}", x, p = p),
        (1, 0, 3, true, false, Some(w), None) => format!("{:>+w$e}", x, w = w),
        (1, 0, 3, true, false, Some(w), Some(p)) => format!("{:>+w$.p$e}", x, w = w, p = p),
        (1, 0, 3, true, true, Some(w), None) => format!("{:>+0w$e}", x, w = w),
        (1, 0, 3, true, true, Some(w), Some(p)) => format!("{:>+0w$.p$e}", x, w = w, p = p),
        (1, 1, 1, false, false, None, None) => format!("{:*<e}", x),
        (1, 1, 1, false, false, None, Some(p)) => format!("{:*<.p$e}", x, p = p),
        (1, 1, 1, false, false, Some(w), None) => format!("{:*<w$e}", x, w = w),
        (1, 1, 1, false, false, Some(w), Some(p)) => format!("{:*<w$.p$e}", x, w = w, p = p),
        (1, 1, 1, false, true, Some(w), None) => format!("{:*<0w$e}", x, w = w),
        (1, 1, 1, false, true, Some(w), Some(p)) => format!("{:*<0w$.p$e}", x, w = w, p = p),
        (1, 1, 1, true, false, None, None) => format!("{:*<+e}", x),
        (1, 1, 1, true, false, None, Some(p)) => format!("{:*<+.p$e}", x, p = p),
        (1, 1, 1, true, false, Some(w), None) => format!("{:*<+w$e}", x, w = w),
        (1, 1, 1, true, false, Some(w), Some(p)) => format!("{:*<+w$.p$e}", x, w = w, p = p),
        (1, 1, 1, true, true, Some(w), None) => format!("{:*<+0w$e}", x, w = w),
        (1, 1, 1, true, true, Some(w), Some(p)) => format!("{:*<+0w$.p$e}", x, w = w, p = p),
        (1, 1, 2, false, false, None, None) => format!("{:*^e}", x),
        (1, 1, 2, false, false, None, Some(p)) => format!("{:*^.p$e}", x, p = p),
        (1, 1, 2, false, false, Some(w), None) => format!("{:*^w$e}", x, w = w),
        (1, 1, 2, false, false, Some(w), Some(p)) => format!("{:*^w$.p$e}", x, w = w, p = p),
        (1, 1, 2, false, true, Some(w), None) => format!("{:*^0w$e}", x, w = w),
        (1, 1, 2, false, true, Some(w), Some(p)) => format!("{:*^0w$.p$e}", x, w = w, p = p),
        (1, 1, 2, true, false, None, None) => format!("{:*^+e}", x),
        (1, 1, 2, true, false, None, Some(p)) => format!("{:*^+.p$e}", x, p = p),
        (1, 1, 2, true, false, Some(w), None) => format!("{:*^+w$e}", x, w = w),
        (1, 1, 2, true, false, Some(w), Some(p)) => format!("{:*^+w$.p$e}", x, w = w, p = p),
        (1, 1, 2, true, true, Some(w), None) => format!("{:*^+0w$e}", x, w = w),
        (1, 1, 2, true, true, Some(w), Some(p)) => format!("{:*^+0w$.p$e}", x, w = w, p = p),
        (1, 1, 3, false, false, None, None) => format!("{:*>e}", x),
        (1, 1, 3, false, false, None, Some(p)) => format!("{:*>.p$e}", x, p = p),
        (1, 1, 3, false, false, Some(w), None) => format!("{:*>w$e}", x, w = w),
        (1, 1, 3, false, false, Some(w), Some(p)) => format!("{:*>w$.p$e}", x, w = w, p = p),
        (1, 1, 3, false, true, Some(w), None) => format!("{:*>0w$e}", x, w = w),
        (1, 1, 3, false, true, Some(w), Some(p)) => format!("{:*>0w$.p$e}", x, w = w, p = p),
        (1, 1, 3, true, false, None, None) => format!("{:*>+e}", x),
        (1, 1, 3, true, false, None, Some(p)) => format!("{:*>+.p$e}", x, p = p),
        (1, 1, 3, true, false, Some(w), None) => format!("{:*>+w$e}", x, w = w),
        (1, 1, 3, true, false, Some(w), Some(p)) => format!("{:*>+w$.p$e}", x, w = w, p = p),
        (1, 1, 3, true, true, Some(w), None) => format!("{:*>+0w$e}", x, w = w),
        (1, 1, 3, true, true, Some(w), Some(p)) => format!("{:*>+0w$.p$e}", x, w = w, p = p),
        (1, 2, 1, false, false, None, None) => format!("{:0<e}", x),
        (1, 2, 1, false, false, None, Some(p)) => format!("{:0<.p$e}", x, p = p),
        (1, 2, 1, false, false, Some(w), None) => format!("{:0<w$e}", x, w = w),
        (1, 2, 1, false, false, Some(w), Some(p)) => format!("{:0<w$.p$e}", x, w = w, p = p),
        (1, 2, 1, false, true, Some(w), None) => format!("{:0<0w$e}", x, w = w),
        (1, 2, 1, false, true, Some(w), Some(p)) => format!("{:0<0w$.p$e}", x, w = w, p = p),
        (1, 2, 1, true, false, None, None) => format!("{:0<+e}", x),
        (1, 2, 1, true, false, None, Some(p)) => format!("{:0<+.p$e}", x, p = p),
        (1, 2, 1, true, false, Some(w), None) => format!("{:0<+w$e}", x, w = w),
        (1, 2, 1, true, false, Some(w), Some(p)) => format!("{:0<+w$.p$e}", x, w = w, p = p),
        (1, 2, 1, true, true, Some(w), None) => format!("{:0<+0w$e}", x, w = w),
        (1, 2, 1, true, true, Some(w), Some(p)) => format!("{:0<+0w$.p$e}", x, w = w, p = p),
        (1, 2, 2, false, false, None, None) => format!("{:0^e}", x),
        (1, 2, 2, false, false, None, Some(p)) => format!("{:0^.p$e}", x, p = p),
        (1, 2, 2, false, false, Some(w), None) => format!("{:0^w$e}", x, w = w),
        (1, 2, 2, false, false, Some(w), Some(p)) => format!("{:0^w$.p$e}", x, w = w, p = p),
        (1, 2, 2, false, true, Some(w), None) => format!("{:0^0w$e}", x, w = w),
        (1, 2, 2, false, true, Some(w), Some(p)) => format!("{:0^0w$.p$e}", x, w = w, p = p),
        (1, 2, 2, true, false, None, None) => format!("{:0^+e}", x),
        (1, 2, 2, true, false, None, Some(p)) => format!("{:0^+.p$e}", x, p = p),
        (1, 2, 2, true, false, Some(w), None) => format!("{:0^+w$e}", x, w = w),
        (1, 2, 2, true, false, Some(w), Some(p)) => format!("{:0^+w$.p$e}", x, w = w, p = p),
        (1, 2, 2, true, true, Some(w), None) => format!("{:0^+0w$e}", x, w = w),
        (1, 2, 2, true, true, Some(w), Some(p)) => format!("{:0^+0w$.p$e}", x, w = w, p = p),
        (1, 2, 3, false, false, None, None) => format!("{:0>e}", x),
        (1, 2, 3, false, false, None, Some(p)) => format!("{:0>.p$e}", x, p = p),
        (1, 2, 3, false, false, Some(w), None) => format!("{:0>w$e}", x, w = w),
        (1, 2, 3, false, false, Some(w), Some(p)) => format!("{:0>w$.p$e}", x, w = w, p = p),
        (1, 2, 3, false, true, Some(w), None) => format!("{:0>0w$e}", x, w = w),
        (1, 2, 3, false, true, Some(w), Some(p)) => format!("{:0>0w$.p$e}", x, w = w, p = p),
        (1, 2, 3, true, false, None, None) => format!("{:0>+e}", x),
        (1, 2, 3, true, false, None, Some(p)) => format!("{:0>+.p$e}", x, p = p),
        (1, 2, 3, true, false, Some(w), None) => format!("{:0>+w$e}", x, w = w),
        (1, 2, 3, true, false, Some(w), Some(p)) => format!("{:0>+w$.p$e}", x, w = w, p = p),
        (1, 2, 3, true, true, Some(w), None) => format!("{:0>+0w$e}", x, w = w),
        (1, 2, 3, true, true, Some(w), Some(p)) => format!("{:0>+0w$.p$e}", x, w = w, p = p),
        (1, 3, 1, false, false, None, None) => format!("{:é<e}", x),
        (1, 3, 1, false, false, None, Some(p)) => format!("{:é<.p$e}", x, p = p),
        (1, 3, 1, false, false, Some(w), None) => format!("{:é<w$e}", x, w = w),
        (1, 3, 1, false, false, Some(w), Some(p)) => format!("{:é<w$.p$e}", x, w = w, p = p),
        (1, 3, 1, false, true, Some(w), None) => format!("{:é<0w$e}", x, w = w),
        (1, 3, 1, false, true, Some(w), Some(p)) => format!("{:é<0w$.p$e}", x, w = w, p = p),
        (1, 3, 1, true, false, None, None) => format!("{:é<+e}", x),
        (1, 3, 1, true, false, None, Some(p)) => format!("{:é<+.p$e}", x, p = p),
        (1, 3, 1, true, false, Some(w), None) => format!("{:é<+w$e}", x, w = w),
        (1, 3, 1, true, false, Some(w), Some(p)) => format!("{:é<+w$.p$e}", x, w = w, p = p),
        (1, 3, 1, true, true, Some(w), None) => format!("{:é<+0w$e}", x, w = w),
        (1, 3, 1, true, true, Some(w), Some(p)) => format!("{:é<+0w$.p$e}", x, w = w, p = p),
        (1, 3, 2, false, false, None, None) => format!("{:é^e}", x),
        (1, 3, 2, false, false, None, Some(p)) => format!("{:é^.p$e}", x, p = p),
        (1, 3, 2, false, false, Some(w), None) => format!("{:é^w$e}", x, w = w),
        (1, 3, 2, false, false, Some(w), Some(p)) => format!("{:é^w$.p$e}", x, w = w, p = p),
        (1, 3, 2, false, true, Some(w), None) => format!("{:é^0w$e}", x, w = w),
        (1, 3, 2, false, true, Some(w), Some(p)) => format!("{:é^0w$.p$e}", x, w = w, p = p),
        (1, 3, 2, true, false, None, None) => format!("{:é^+e}", x),
        (1, 3, 2, true, false, None, Some(p)) => format!("{:é^+.p$e}", x, p = p),
        (1, 3, 2, true, false, Some(w), None) => format!("{:é^+w$e}", x, w = w),
        (1, 3, 2, true, false, Some(w), Some(p)) => format!("{:é^+w$.p$e}", x, w = w, p = p),
        (1, 3, 2, true, true, Some(w), None) => format!("{:é^+0w$e}", x, w = w),
        (1, 3, 2, true, true, Some(w), Some(p)) => format!("{:é^+0w$.p$e}", x, w = w, p = p),
        (1, 3, 3, false, false, None, None) => format!("{:é>e}", x),
        (1, 3, 3, false, false, None, Some(p)) => format!("{:é>.p$e}", x, p = p),
        (1, 3, 3, false, false, Some(w), None) => format!("{:é>w$e}", x, w = w),
        (1, 3, 3, false, false, Some(w), Some(p)) => format!("{:é>w$.p$e}", x, w = w, p = p),
        (1, 3, 3, false, true, Some(w), None) => format!("{:é>0w$e}", x, w = w),
        (1, 3, 3, false, true, Some(w), Some(p)) => format!("{:é>0w$.p$e}", x, w = w, p = p),
        (1, 3, 3, true, false, None, None) => format!("{:é>+e}", x),
        (1, 3, 3, true, false, None, Some(p)) => format!("{:é>+.p$e}", x, p = p),
        (1, 3, 3, true, false, Some(w), None) => format!("{:é>+w$e}", x, w = w),
        (1, 3, 3, true, false, Some(w), Some(p)) => format!("{:é>+w$.p$e}", x, w = w, p = p),
        (1, 3, 3, true, true, Some(w), None) => format!("{:é>+0w$e}", x, w = w),
        (1, 3, 3, true, true, Some(w), Some(p)) => format!("{:é>+0w$.p$e}", x, w = w, p = p),
        (2, 0, 0, false, false, None, None) => format!("{:E}", x),
        (2, 0, 0, false, false, None, Some(p)) => format!("{:.p$E}", x, p = p),
        (2, 0, 0, false, false, Some(w), None) => format!("{:w$E}", x, w = w),
        (2, 0, 0, false, false, Some(w), Some(p)) => format!("{:w$.p$E}", x, w = w, p = p),
        (2, 0, 0, false, true, Some(w), None) => format!("{:0w$E}", x, w = w),
        (2, 0, 0, false, true, Some(w), Some(p)) => format!("{:0w$.p$E}", x, w = w, p = p),
        (2, 0, 0, true, false, None, None) => format!("{:+E}", x),
        (2, 0, 0, true, false, None, Some(p)) => format!("{:+.p$E}", x, p = p),
        (2, 0, 0, true, false, Some(w), None) => format!("{:+w$E}", x, w = w),
        (2, 0, 0, true, false, Some(w), Some(p)) => format!("{:+w$.p$E}", x, w = w, p = p),
        (2, 0, 0, true, true, Some(w), None) => format!("{:+0w$E}", x, w = w),
        (2, 0, 0, true, true, Some(w), Some(p)) => format!("{:+0w$.p$E}", x, w = w, p = p),
        (2, 0, 1, false, false, None, None) => format!("{:<E}", x),
        (2, 0, 1, false, false, None, Some(p)) => format!("{:<.p$E}", x, p = p),
        (2, 0, 1, false, false, Some(w), None) => format!("{:<w$E}", x, w = w),
        (2, 0, 1, false, false, Some(w), Some(p)) => format!("{:<w$.p$E}", x, w = w, p = p),
        (2, 0, 1, false, true, Some(w), None) => format!("{:<0w$E}", x, w = w),
        (2, 0, 1, false, true, Some(w), Some(p)) => format!("{:<0w$.p$E}", x, w = w, p = p),
        (2, 0, 1, true, false, None, None) => format!("{:<+E}", x),
        (2, 0, 1, true, false, None, Some(p)) => format!("{:<+.p$E}", x, p = p),
        (2, 0, 1, true, false, Some(w), None) => format!("{:<+w$E}", x, w = w),
        (2, 0, 1, true, false, Some(w), Some(p)) => format!("{:<+w$.p$E}", x, w = w, p = p),
        (2, 0, 1, true, true, Some(w), None) => format!("{:<+0w$E}", x, w = w),
        (2, 0, 1, true, true, Some(w), Some(p)) => format!("{:<+0w$.p$E}", x, w = w, p = p),
        (2, 0, 2, false, false, None, None) => format!("{:^E}", x),
        (2, 0, 2, false, false, None, Some(p)) => format!("{:^.p$E}", x, p = p),
        (2, 0, 2, false, false, Some(w), None) => format!("{:^w$E}", x, w = w),
        (2, 0, 2, false, false, Some(w), Some(p)) => format!("{:^w$.p$E}", x, w = w, p = p),
        (2, 0, 2, false, true, Some(w), None) => format!("{:^0w$E}", x, w = w),
        (2, 0, 2, false, true, Some(w), Some(p)) => format!("{:^0w$.p$E}", x, w = w, p = p),
        (2, 0, 2, true, false, None, None) => format!("{:^+E}", x),
        (2, 0, 2, true, false, None, Some(p)) => format!("{:^+.p$E}", x, p = p),
        (2, 0, 2, true, false, Some(w), None) => format!("{:^+w$E}", x, w = w),
        (2, 0, 2, true, false, Some(w), Some(p)) => format!("{:^+w$.p$E}", x, w = w, p = p),
        (2, 0, 2, true, true, Some(w), None) => format!("{:^+0w$E}", x, w = w),
        (2, 0, 2, true, true, Some(w), Some(p)) => format!("{:^+0w$.p$E}", x, w = w, p = p),
        (2, 0, 3, false, false, None, None) => format!("{:>E}", x),
        (2, 0, 3, false, false, None, Some(p)) => format!("{:>.p$E}", x, p = p),
        (2, 0, 3, false, false, Some(w), None) => format!("{:>w$E}", x, w = w),
        (2, 0, 3, false, false, Some(w), Some(p)) => format!("{:>w$.p$E}", x, w = w, p = p),
        (2, 0, 3, false, true, Some(w), None) => format!("{:>0w$E}", x, w = w),
        (2, 0, 3, false, true, Some(w), Some(p)) => format!("{:>0w$.p$E}", x, w = w, p = p),
        (2, 0, 3, true, false, None, None) => format!("{:>+E}", x),
        (2, 0, 3, true, false, None, Some(p)) => format!("{:>+.p$E}", x, p = p),
        (2, 0, 3, true, false, Some(w), None) => format!("{:>+w$E}", x, w = w),
        (2, 0, 3, true, false, Some(w), Some(p)) => format!("{:>+w$.p$E}", x, w = w, p = p),
        (2, 0, 3, true, true, Some(w), None) => format!("{:>+0w$E}", x, w = w),
        (2, 0, 3, true, true, Some(w), Some(p)) => format!("{:>+0w$.p$E}", x, w = w, p = p),
        (2, 1, 1, false, false, None, None) => format!("{:*<E}", x),
        (2, 1, 1, false, false, None, Some(p)) => format!("{:*<.p$E}", x, p = p),
        (2, 1, 1, false, false, Some(w), None) => format!("{:*<w$E}", x, w = w),
        (2, 1, 1, false, false, Some(w), Some(p)) => format!("{:*<w$.p$E}", x, w = w, p = p),
        (2, 1, 1, false, true, Some(w), None) => format!("{:*<0w$E}", x, w = w),
        (2, 1, 1, false, true, Some(w), Some(p)) => format!("{:*<0w$.p$E}", x, w = w, p = p),
        (2, 1, 1, true, false, None, None) => format!("{:*<+E}", x),
        (2, 1, 1, true, false, None, Some(p)) => format!("{:*<+.p$E}", x, p = p),
        (2, 1, 1, true, false, Some(w), None) => format!("{:*<+w$E}", x, w = w),
        (2, 1, 1, true, false, Some(w), Some(p)) => format!("{:*<+w$.p$E}", x, w = w, p = p),
        (2, 1, 1, true, true, Some(w), None) => format!("{:*<+0w$E}", x, w = w),
        (2, 1, 1, true, true, Some(w), Some(p)) => format!("{:*<+0w$.p$E}", x, w = w, p = p),
        (2, 1, 2, false, false, None, None) => format!("{:*^E}", x),
        (2, 1, 2, false, false, None, Some(p)) => format!("{:*^.p$E}", x, p = p),
        (2, 1, 2, false, false, Some(w), None) => format!("{:*^w$E}", x, w = w),
        (2, 1, 2, false, false, Some(w), Some(p)) => format!("{:*^w$.p$E}", x, w = w, p = p),
        (2, 1, 2, false, true, Some(w), None) => format!("{:*^0w$E}", x, w = w),
        (2, 1, 2, false, true, Some(w), Some(p)) => format!("{:*^0w$.p$E}", x, w = w, p = p),
        (2, 1, 2, true, false, None, None) => format!("{:*^+E}", x),
        (2, 1, 2, true, false, None, Some(p)) => format!("{:*^+.p$E}", x, p = p),
        (2, 1, 2, true, false, Some(w), None) => format!("{:*^+w$E}", x, w = w),
        (2, 1, 2, true, false, Some(w), Some(p)) => format!("{:*^+w$.p$E}", x, w = w, p = p),
        (2, 1, 2, true, true, Some(w), None) => format!("{:*^+0w$E}", x, w = w),
        (2, 1, 2, true, true, Some(w), Some(p)) => format!("{:*^+0w$.p$E}", x, w = w, p = p),
        (2, 1, 3, false, false, None, None) => format!("{:*>E}", x),
        (2, 1, 3, false, false, None, Some(p)) => format!("{:*>.p$E}", x, p = p),
        (2, 1, 3, false, false, Some(w), None) => format!("{:*>w$E}", x, w = w),
        (2, 1, 3, false, false, Some(w), Some(p)) => format!("{:*>w$.p$E}", x, w = w, p = p),
        (2, 1, 3, false, true, Some(w), None) => format!("{:*>0w$E}", x, w = w),
        (2, 1, 3, false, true, Some(w), Some(p)) => format!("{:*>0w$.p$E}", x, w = w, p = p),
        (2, 1, 3, true, false, None, None) => format!("{:*>+E}", x),
        (2, 1, 3, true, false, None, Some(p)) => format!("{:*>+.p$E}", x, p = p),
        (2, 1, 3, true, false, Some(w), None) => format!("{:*>+w$E}", x, w = w),
        (2, 1, 3, true, false, Some(w), Some(p)) => format!("{:*>+w$.p$E}", x, w = w, p = p),
        (2, 1, 3, true, true, Some(w), None) => format!("{:*>+0w$E}", x, w = w),
        (2, 1, 3, true, true, Some(w), Some(p)) => format!("{:*>+0w$.p$E}", x, w = w, p = p),
        (2, 2, 1, false, false, None, None) => format!("{:0<E}", x),
        (2, 2, 1, false, false, None, Some(p)) => format!("{:0<.p$E}", x, p = p),
        (2, 2, 1, false, false, Some(w), None) => format!("{:0<w$E}", x, w = w),
        (2, 2, 1, false, false, Some(w), Some(p)) => format!("{:0<w$.p$E}", x, w = w, p = p),
        (2, 2, 1, false, true, Some(w), None) => format!("{:0<0w$E}", x, w = w),
        (2, 2, 1, false, true, Some(w), Some(p)) => format!("{:0<0w$.p$E}", x, w = w, p = p),
        (2, 2, 1, true, false, None, None) => format!("{:0<+E}", x),
        (2, 2, 1, true, false, None, Some(p)) => format!("{:0<+.p$E}", x, p = p),
        (2, 2, 1, true, false, Some(w), None) => format!("{:0<+w$E}", x, w = w),
        (2, 2, 1, true, false, Some(w), Some(p)) => format!("{:0<+w$.p$E}", x, w = w, p = p),
        (2, 2, 1, true, true, Some(w), None) => format!("{:0<+0w$E}", x, w = w),
        (2, 2, 1, true, true, Some(w), Some(p)) => format!("{:0<+0w$.p$E}", x, w = w, p = p),
        (2, 2, 2, false, false, None, None) => format!("{:0^E}", x),
        (2, 2, 2, false, false, None, Some(p)) => format!("{:0^.p$E}", x, p = p),
        (2, 2, 2, false, false, Some(w), None) => format!("{:0^w$E}", x, w = w),
        (2, 2, 2, false, false, Some(w), Some(p)) => format!("{:0^w$.p$E}", x, w = w, p = p),
        (2, 2, 2, false, true, Some(w), None) => format!("{:0^0w$E}", x, w = w),
        (2, 2, 2, false, true, Some(w), Some(p)) => format!("{:0^0w$.p$E}", x, w = w, p = p),
        (2, 2, 2, true, false, None, None) => format!("{:0^+E}", x),
        (2, 2, 2, true, false, None, Some(p)) => format!("{:0^+.p$E}", x, p = p),
        (2, 2, 2, true, false, Some(w), None) => format!("{:0^+w$E}", x, w = w),
        (2, 2, 2, true, false, Some(w), Some(p)) => format!("{:0^+w$.p$E}", x, w = w, p = p),
        (2, 2, 2, true, true, Some(w), None) => format!("{:0^+0w$E}", x, w = w),
        (2, 2, 2, true, true, Some(w), Some(p)) => format!("{:0^+0w$.p$E}", x, w = w, p = p),
        (2, 2, 3, false, false, None, None) => format!("{:0>E}", x),
        (2, 2, 3, false, false, None, Some(p)) => format!("{:0>.p$E}", x, p = p),
        (2, 2, 3, false, false, Some(w), None) => format!("{:0>w$E}", x, w = w),
        (2, 2, 3, false, false, Some(w), Some(p)) => format!("{:0>w$.p$E}", x, w = w, p = p),
        (2, 2, 3, false, true, Some(w), None) => format!("{:0>0w$E}", x, w = w),
        (2, 2, 3, false, true, Some(w), Some(p)) => format!("{:0>0w$.p$E}", x, w = w, p = p),
        (2, 2, 3, true, false, None, None) => format!("{:0>+E}", x),
        (2, 2, 3, true, false, None, Some(p)) => format!("{:0>+.p$E}", x, p = p),
        (2, 2, 3, true, false, Some(w), None) => format!("{:0>+w$E}", x, w = w),
        (2, 2, 3, true, false, Some(w), Some(p)) => format!("{:0>+w$.p$E}", x, w = w, p = p),
        (2, 2, 3, true, true, Some(w), None) => format!("{:0>+0w$E}", x, w = w),
        (2, 2, 3, true, true, Some(w), Some(p)) => format!("{:0>+0w$.p$E}", x, w = w, p = p),
        (2, 3, 1, false, false, None, None) => format!("{:é<E}", x),
        (2, 3, 1, false, false, None, Some(p)) => format!("{:é<.p$E}", x, p = p),
        (2, 3, 1, false, false, Some(w), None) => format!("{:é<w$E}", x, w = w),
        (2, 3, 1, false, false, Some(w), Some(p)) => format!("{:é<w$.p$E}", x, w = w, p = p),
        (2, 3, 1, false, true, Some(w), None) => format!("{:é<0w$E}", x, w = w),
        (2, 3, 1, false, true, Some(w), Some(p)) => format!("{:é<0w$.p$E}", x, w = w, p = p),
        (2, 3, 1, true, false, None, None) => format!("{:é<+E}", x),
        (2, 3, 1, true, false, None, Some(p)) => format!("{:é<+.p$E}", x, p = p),
        (2, 3, 1, true, false, Some(w), None) => format!("{:é<+w$E}", x, w = w),
        (2, 3, 1, true, false, Some(w), Some(p)) => format!("{:é<+w$.p$E}", x, w = w, p = p),
        (2, 3, 1, true, true, Some(w), None) => format!("{:é<+0w$E}", x, w = w),
        (2, 3, 1, true, true, Some(w), Some(p)) => format!("{:é<+0w$.p$E}", x, w = w, p = p),
        (2, 3, 2, false, false, None, None) => format!("{:é^E}", x),
        (2, 3, 2, false, false, None, Some(p)) => format!("{:é^.p$E}", x, p = p),
        (2, 3, 2, false, false, Some(w), None) => format!("{:é^w$E}", x, w = w),
        (2, 3, 2, false, false, Some(w), Some(p)) => format!("{:é^w$.p$E}", x, w = w, p = p),
        (2, 3, 2, false, true, Some(w), None) => format!("{:é^0w$E}", x, w = w),
        (2, 3, 2, false, true, Some(w), Some(p)) => format!("{:é^0w$.p$E}", x, w = w, p = p),
        (2, 3, 2, true, false, None, None) => format!("{:é^+E}", x),
        (2, 3, 2, true, false, None, Some(p)) => format!("{:é^+.p$E}", x, p = p),
        (2, 3, 2, true, false, Some(w), None) => format!("{:é^+w$E}", x, w = w),
        (2, 3, 2, true, false, Some(w), Some(p)) => format!("{:é^+w$.p$E}", x, w = w, p = p),
        (2, 3, 2, true, true, Some(w), None) => format!("{:é^+0w$E}", x, w = w),
        (2, 3, 2, true, true, Some(w), Some(p)) => format!("{:é^+0w$.p$E}", x, w = w, p = p),
        (2, 3, 3, false, false, None, None) => format!("{:é>E}", x),
        (2, 3, 3, false, false, None, Some(p)) => format!("{:é>.p$E}", x, p = p),
        (2, 3, 3, false, false, Some(w), None) => format!("{:é>w$E}", x, w = w),
        (2, 3, 3, false, false, Some(w), Some(p)) => format!("{:é>w$.p$E}", x, w = w, p = p),
        (2, 3, 3, false, true, Some(w), None) => format!("{:é>0w$E}", x, w = w),
        (2, 3, 3, false, true, Some(w), Some(p)) => format!("{:é>0w$.p$E}", x, w = w, p = p),
        (2, 3, 3, true, false, None, None) => format!("{:é>+E}", x),
        (2, 3, 3, true, false, None, Some(p)) => format!("{:é>+.p$E}", x, p = p),
        (2, 3, 3, true, false, Some(w), None) => format!("{:é>+w$E}", x, w = w),
        (2, 3, 3, true, false, Some(w), Some(p)) => format!("{:é>+w$.p$E}", x, w = w, p = p),
        (2, 3, 3, true, true, Some(w), None) => format!("{:é>+0w$E}", x, w = w),
        (2, 3, 3, true, true, Some(w), Some(p)) => format!("{:é>+0w$.p$E}", x, w = w, p = p),
        _ => unreachable!(),
    }
}
