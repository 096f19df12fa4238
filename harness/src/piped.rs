//! Commands that read from and write to pipes instead of regular files.
use crate::cli;
use crate::common::*;

/// A command on regular files, and the same with one input coming out of a pipe piece by piece
/// and, perhaps, the output going into a pipe.
pub struct Piped {
    pub bin: &'static str,
    pub files: Vec<(&'static str, String)>,
    /// @ stands for the directory, %out for the output.
    pub args: Vec<String>,
}
impl Piped {
    fn run(&self, sc: &cli::Scratch, out: &str, w: &mut W) -> cli::Ran {
        let d = sc.0.to_str().unwrap();
        let args: Vec<String> = self.args.iter().map(|a| if a == "%out" { out.to_string() } else { a.replace('@', d) }).collect();
        w.op();
        let mut r = cli::run(self.bin, &args);
        r.out = r.text().replace(d, "@").into_bytes();
        r
    }
    /// How many ways there are to cut the inputs: each at every place, and into equal parts.
    pub fn ways(&self) -> u64 {
        self.files.iter().map(|f| f.1.len() as u64 + 1 + EQUAL).sum::<u64>() * 2
    }
    pub fn check(&self, i: u64, base: &(cli::Ran, Vec<u8>), w: &mut W) {
        let out_pipe = i % 2 == 1 && self.args.iter().any(|a| a == "%out");
        let (mut k, mut at) = (0, i / 2);
        while at > self.files[k].1.len() as u64 + EQUAL {
            at -= self.files[k].1.len() as u64 + 1 + EQUAL;
            k += 1;
        }
        w.at(|| format!("{} {:?}: {} comes out of a pipe, cut {at} of {}, output into a pipe: {out_pipe}", self.bin, self.args, self.files[k].0, self.files[k].1.len()));
        let sc = cli::Scratch::new();
        let mut feed = None;
        for (j, (n, t)) in self.files.iter().enumerate() {
            if j == k {
                feed = Some(cli::Pipe::feed(&sc, n, cli::pieces(t, at as usize)));
            } else {
                sc.file(n, t);
            }
        }
        let drain = out_pipe.then(|| cli::Pipe::drain(&sc, "out"));
        let r = self.run(&sc, sc.path("out").to_str().unwrap(), w);
        feed.unwrap().close();
        let file = match drain {
            Some(p) => p.close(),
            None => std::fs::read(sc.path("out")).unwrap_or_default(),
        };
        w.trace();
        w.outcome(&(r.ok, r.out.len(), file.len()));
        let show = |b: &[u8]| String::from_utf8_lossy(b).chars().take(300).collect::<String>();
        w.check(r.ok == base.0.ok, || format!("ends with {}, but with {} on regular files: {}", r.status, base.0.status, r.err.chars().take(300).collect::<String>()));
        if r.ok && base.0.ok {
            w.check(r.out == base.0.out, || format!("prints {:?}, but {:?} on regular files", show(&r.out), show(&base.0.out)));
            w.check(file == base.1, || format!("writes {:?}, but {:?} on regular files", show(&file), show(&base.1)));
        }
    }
    pub fn base(&self) -> (cli::Ran, Vec<u8>) {
        let sc = cli::Scratch::new();
        for (n, t) in &self.files {
            sc.file(n, t);
        }
        let r = self.run(&sc, sc.path("out").to_str().unwrap(), &mut W::default());
        let f = std::fs::read(sc.path("out")).unwrap_or_default();
        (r, f)
    }
}
/// Equal parts of 1 to this many bytes.
const EQUAL: u64 = 16;

/// One family for a list of commands.
pub fn pipes(cx: &mut Cx, name: &str, ps: &[Piped]) {
    let base: Vec<_> = ps.iter().map(|p| p.base()).collect();
    let mut cases: Vec<(usize, u64)> = vec![];
    for (k, p) in ps.iter().enumerate() {
        cases.extend((0..p.ways()).map(|i| (k, i)));
    }
    let (base, cases) = (&base, &cases);
    cx.family(name, cases.len() as u64, |i, w| {
        let (k, x) = cases[i as usize];
        w.state(&("pipe", k, x));
        ps[k].check(x, &base[k], w);
    });
}
