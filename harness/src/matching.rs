/// Kuhn's algorithm: is there a perfect matching between two sides of the same size?
pub fn perfect_matching(n: usize, compatible: impl Fn(usize, usize) -> bool) -> bool {
    unmatched(n, compatible).is_none()
}

/// Return some left element that no maximum matching built greedily can cover.
pub fn unmatched(n: usize, compatible: impl Fn(usize, usize) -> bool) -> Option<usize> {
    let adjacency: Vec<Vec<usize>> = (0..n)
        .map(|i| (0..n).filter(|&j| compatible(i, j)).collect())
        .collect();
    let mut owner: Vec<Option<usize>> = vec![None; n];
    fn augment(
        i: usize,
        adjacency: &[Vec<usize>],
        seen: &mut [bool],
        owner: &mut [Option<usize>],
    ) -> bool {
        for &j in &adjacency[i] {
            if seen[j] {
                continue;
            }
            seen[j] = true;
            if owner[j].is_none() || augment(owner[j].unwrap(), adjacency, seen, owner) {
                owner[j] = Some(i);
                return true;
            }
        }
        false
    }
    (0..n).find(|&i| !augment(i, &adjacency, &mut vec![false; n], &mut owner))
}
