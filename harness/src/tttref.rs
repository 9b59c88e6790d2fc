//! Reference rules of tic-tac-toe.
pub const LINES: [[usize; 3]; 8] = [[0, 1, 2], [3, 4, 5], [6, 7, 8], [0, 3, 6], [1, 4, 7], [2, 5, 8], [0, 4, 8], [2, 4, 6]];

pub fn winner(b: &[i8; 9]) -> Option<i8> {
    for p in [-1i8, 1] {
        if LINES.iter().any(|l| l.iter().all(|&i| b[i] == p)) {
            return Some(p);
        }
    }
    if b.iter().all(|&x| x != 0) {
        Some(0)
    } else {
        None
    }
}
