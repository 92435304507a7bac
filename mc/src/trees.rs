//! All ordered forests/trees of up to n nodes, as parent lists in preorder.

/// Number of ordered forests with n nodes: Catalan(n).
fn catalan(n: usize) -> usize {
    let mut c = vec![1usize];
    for k in 1..=n { c.push((0..k).map(|i| c[i] * c[k - 1 - i]).sum()); }
    c[n]
}

/// All ordered forests of exactly n nodes; node k's parent (None: top level).
pub fn forests(n: usize) -> Vec<Vec<Option<usize>>> {
    // Grow in preorder: node k is attached to node k-1 or one of its ancestors, or to the top.
    let mut out = vec![vec![]];
    for k in 0..n {
        let mut next = vec![];
        for f in &out {
            let f: &Vec<Option<usize>> = f;
            let mut p = if k == 0 { None } else { Some(k - 1) };
            loop {
                let mut g = f.clone();
                g.push(p);
                next.push(g);
                match p { Some(q) => p = f[q], None => break }
            }
        }
        out = next;
    }
    assert_eq!(out.len(), catalan(n));
    out
}

/// Number of ordered forests with 1..=n nodes.
pub fn count_upto(n: usize) -> usize { (1..=n).map(catalan).sum() }

/// The i-th ordered forest, smallest first.
pub fn nth(mut i: usize) -> Vec<Option<usize>> {
    let mut n = 1;
    loop {
        let c = catalan(n);
        if i < c { return unrank(n, i); }
        i -= c;
        n += 1;
    }
}

fn unrank(n: usize, i: usize) -> Vec<Option<usize>> {
    thread_local! {
        static CACHE: std::cell::RefCell<std::collections::HashMap<usize, Vec<Vec<Option<usize>>>>> = Default::default();
    }
    CACHE.with(|c| c.borrow_mut().entry(n).or_insert_with(|| forests(n))[i].clone())
}
