//! Exhaustive exploration of everything a seeded generator can produce: depth-first,
//! stateless, one real execution per leaf of the tree of draws.
use rand::mc;

pub struct Tree {
    pub leaves: u64,
    pub points: u64,
    pub max_depth: usize,
    pub raw: bool,
    pub diverged: bool,
    pub too_many: bool,
    pub generators: u64,
    pub total_weight: f64,
}

/// Runs `f` once per leaf; `visit` gets the leaf's probability and result.
pub fn explore<T>(thread_menu: &[u64], limit: u64, mut f: impl FnMut() -> T, mut visit: impl FnMut(f64, T, &mc::Ctx)) -> Tree {
    let mut t = Tree { leaves: 0, points: 0, max_depth: 0, raw: false, diverged: false, too_many: false, generators: 0, total_weight: 0.0 };
    let mut prefix: Vec<u32> = vec![];
    loop {
        mc::start(mc::Ctx { prefix: prefix.clone(), thread_menu: thread_menu.to_vec(), strata: 2, max_points: 4000, ..Default::default() });
        let r = f();
        let ctx = mc::stop().expect("script");
        t.leaves += 1;
        t.points += ctx.trace.len() as u64;
        t.max_depth = t.max_depth.max(ctx.trace.len());
        t.raw |= ctx.raw_words > 0;
        t.diverged |= ctx.diverged || ctx.trace.len() < prefix.len();
        t.too_many |= ctx.too_long;
        t.generators = t.generators.max(ctx.generators);
        let weight: f64 = ctx.trace.iter().map(|(a, _)| 1.0 / *a as f64).product();
        t.total_weight += weight;
        visit(weight, r, &ctx);
        // Next leaf: advance the last choice that can be advanced.
        let mut tr = ctx.trace;
        loop {
            match tr.pop() {
                None => return t,
                Some((a, c)) if c + 1 < a => {
                    prefix = tr.iter().map(|x| x.1).collect();
                    prefix.push(c + 1);
                    break;
                }
                Some(_) => {}
            }
        }
        if t.leaves >= limit || t.raw || t.diverged {
            t.too_many |= t.leaves >= limit;
            return t;
        }
    }
}
