/// Order in which `select!` polls its branches: asked from the model checker.
/// Outside an execution, or by default, the order is the textual one, unless the execution as a whole
/// prefers another one.
#[doc(hidden)]
pub fn shuffle<T>(slice: &mut [T]) {
    let n = slice.len();
    if n < 2 || !mcrt::in_exec() {
        return;
    }
    let mut perms = 1usize;
    for k in 2..=n {
        perms = perms.saturating_mul(k);
    }
    if perms > 60000 {
        return;
    }
    if mcrt::explore::reversed() {
        slice.reverse();
    }
    let mut k = mcrt::choose_cost(perms);
    // decode permutation k (0 is the identity)
    for i in 0..n {
        let mut f = 1usize;
        for j in 2..(n - i) {
            f *= j;
        }
        let d = k / f;
        k %= f;
        slice[i..=i + d].rotate_right(1);
    }
}
