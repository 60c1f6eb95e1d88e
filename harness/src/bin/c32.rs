use multicalc::random::*;
use vharness::*;
/// A source with words of its own, for the draws every source inherits.
#[derive(Clone, PartialEq)]
struct Script<T> {
    words: Vec<u32>,
    at: usize,
    kept: Option<T>,
}
impl<T: RandomScalar> RandomSource<T> for Script<T> {
    fn next_u32(&mut self) -> u32 {
        self.at += 1;
        *self.words.get(self.at - 1).unwrap_or(&0x6000_0000)
    }
    fn get_cache(&mut self) -> Option<T> {
        self.kept.take()
    }
    fn set_cache(&mut self, value: T) {
        self.kept = Some(value);
    }
}
#[derive(Clone)]
enum Slot {
    Pcg64(Pcg32<f64>),
    Pcg32(Pcg32<f32>),
    Own64(Script<f64>),
    Own32(Script<f32>),
}
struct D {
    s: [Slot; 4],
}
fn word(q: &[i64]) -> u64 {
    q.iter().fold(0, |w, h| (w << 16) | *h as u64)
}
fn draw<T: RandomScalar + Into<f64>, S: RandomSource<T>>(g: &mut S, op: &str) -> Obs {
    let halves = |w: u64, n: u32| (0..n).rev().map(|k| ((w >> (16 * k)) & 0xffff) as i64).collect();
    match op {
        "u32" => ok(halves(g.next_u32() as u64, 2)),
        "u64" => ok(halves(g.next_u64(), 4)),
        "unit" => {
            let (x, narrow): (f64, bool) = (g.next_unit().into(), size_of::<T>() == 4);
            let m = x * if narrow { 2f64.powi(24) } else { 2f64.powi(53) };
            if !(0.0..1.0).contains(&x) || m.fract() != 0.0 {
                return tag("astray", vec![]);
            }
            let m = m as i64;
            ok(if narrow { vec![m] } else { vec![m >> 32, (m >> 16) & 0xffff, m & 0xffff] })
        }
        "normal" => ok(vec![enc_tol(g.standard_normal().into(), 1e4, 0.5)]),
        _ => panic!("HARNESS {op}"),
    }
}
impl Driver for D {
    fn apply(&mut self, op: &str, a: &[i64]) -> Obs {
        let i = a[0] as usize;
        match op {
            "new" | "stream" => {
                let seed = word(&a[2..6]);
                macro_rules! new {
                    () => {
                        if op == "new" { Pcg32::new(seed) } else { Pcg32::with_stream(seed, word(&a[6..10])) }
                    };
                }
                self.s[i] = if a[1] == 0 { Slot::Pcg64(new!()) } else { Slot::Pcg32(new!()) };
                ok(vec![])
            }
            "script" => {
                let words = a[2..].chunks(2).map(|h| word(h) as u32).collect();
                self.s[i] = if a[1] == 0 { Slot::Own64(Script { words, at: 0, kept: None }) } else { Slot::Own32(Script { words, at: 0, kept: None }) };
                ok(vec![])
            }
            "clone" => {
                self.s[a[1] as usize] = self.s[i].clone();
                ok(vec![])
            }
            "same" => ok(vec![b(match (&self.s[i], &self.s[a[1] as usize]) {
                (Slot::Pcg64(x), Slot::Pcg64(y)) => x == y,
                (Slot::Pcg32(x), Slot::Pcg32(y)) => x == y,
                (Slot::Own64(x), Slot::Own64(y)) => x.words[x.at.min(x.words.len())..] == y.words[y.at.min(y.words.len())..] && x.kept == y.kept,
                (Slot::Own32(x), Slot::Own32(y)) => x.words[x.at.min(x.words.len())..] == y.words[y.at.min(y.words.len())..] && x.kept == y.kept,
                _ => false,
            })]),
            _ => match &mut self.s[i] {
                Slot::Pcg64(g) => draw(g, op),
                Slot::Pcg32(g) => draw(g, op),
                Slot::Own64(g) => draw(g, op),
                Slot::Own32(g) => draw(g, op),
            },
        }
    }
}
fn gen(r: &mut Rng, s: &mut Sess) {
    for _ in 0..3 {
        for i in 1..=2 {
            let ty = r.int(0, 1);
            let halves = |r: &mut Rng| if r.chance(1, 4) { r.of(&[0, 65535, 32768]) } else { r.int(0, 65535) };
            let mut a = vec![i, ty];
            match r.below(4) {
                0 => {
                    a.extend((0..4).map(|_| halves(r)));
                    s.run("new", &a);
                }
                1 | 2 => {
                    a.extend((0..8).map(|_| halves(r)));
                    s.run("stream", &a);
                }
                _ => {
                    // coordinates near the rim, the centre and the ends, or anywhere
                    let n = r.int(0, 6);
                    for _ in 0..n {
                        let hi = match r.below(4) {
                            0 => r.of(&[0, 32768, 65535, 49152, 16384, 32769, 32767, 6553, 13107, 58982]),
                            1 => 32768 + r.int(-20, 20),
                            _ => r.int(0, 65535),
                        };
                        let round = r.chance(1, 2);
                        let mut low = |r: &mut Rng| if round { 0 } else { r.int(0, 65535) };
                        a.push(if round { hi / 2 * 2 } else { hi });
                        a.push(low(r));
                        if ty == 0 {
                            a.push(low(r));
                            a.push(low(r));
                        }
                    }
                    s.run("script", &a);
                }
            }
        }
        let bias = r.below(4);
        for _ in 0..12 {
            let i = r.int(1, 3);
            match r.below(8) {
                0 => s.run("clone", &[i, r.int(1, 3)]),
                1 => s.run("same", &[i, r.int(1, 3)]),
                k => {
                    let op = if k < 4 && bias > 0 { 3 } else { r.below(4) };
                    s.run(["u32", "u64", "unit", "normal"][op as usize], &[i])
                }
            };
        }
    }
}
fn main() {
    main_with(&[Model { name: "pcg", make: |_| { let g = || Slot::Pcg64(Pcg32::new(0)); Box::new(D { s: [g(), g(), g(), g()] }) }, gen }]);
}
