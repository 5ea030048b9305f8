use std::fmt;
use std::str::FromStr;

/// numerals only, so that names parse as variables
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Num(pub i64);
impl fmt::Display for Num {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl FromStr for Num {
    type Err = std::num::ParseIntError;
    fn from_str(s: &str) -> Result<Self, Self::Err> {
        s.parse::<i64>().map(Num)
    }
}

/// Arithmetic modulo 3 with a partial division; `g` and `s` may be disallowed in rules.
macro_rules! toy {
    ($name:ident, $samples:expr, $allowed:expr, $ff:expr, $expl:expr) => {
        pub mod $name {
            use super::Num;
            use egg::Language;
            use ruler::enumo::Ruleset;
            use ruler::*;
            egg::define_language! {
                pub enum Toy {
                    "+" = Add([Id; 2]),
                    "*" = Mul([Id; 2]),
                    "/" = Div([Id; 2]),
                    "~" = Neg(Id),
                    "g" = Sub([Id; 2]),
                    "s" = Suc(Id),
                    "m" = Mad([Id; 3]),
                    Lit(Num),
                    Var(Symbol),
                }
            }
            pub fn op(n: &Toy, v: &[Option<i64>]) -> Option<i64> {
                let mut w = vec![];
                for x in v {
                    w.push((*x)?);
                }
                Some(match n {
                    Toy::Add(_) => (w[0] + w[1]) % 3,
                    Toy::Mul(_) => (w[0] * w[1]) % 3,
                    Toy::Div(_) => {
                        if w[1] == 0 {
                            return None;
                        }
                        (w[0] * w[1]) % 3
                    }
                    Toy::Neg(_) => (3 - w[0]) % 3,
                    Toy::Sub(_) => (w[0] + 3 - w[1]) % 3,
                    Toy::Suc(_) => (w[0] + 1) % 3,
                    Toy::Mad(_) => (w[0] * w[1] + w[2]) % 3,
                    Toy::Lit(n) => n.0.rem_euclid(3),
                    Toy::Var(_) => return None,
                })
            }
            fn ev(e: &[Toy], vars: &[Symbol], asg: usize) -> Option<i64> {
                let mut buf: Vec<Option<i64>> = vec![];
                for n in e {
                    let v = if let Toy::Var(s) = n {
                        let i = vars.iter().position(|x| x == s).unwrap();
                        Some((asg / 3usize.pow(i as u32) % 3) as i64)
                    } else {
                        let ks: Vec<_> =
                            n.children().iter().map(|i| buf[usize::from(*i)]).collect();
                        op(n, &ks)
                    };
                    buf.push(v);
                }
                *buf.last().unwrap()
            }
            impl SynthLanguage for Toy {
                type Constant = Num;
                fn eval<'a, F>(&'a self, cvec_len: usize, mut get_cvec: F) -> CVec<Self>
                where
                    F: FnMut(&'a Id) -> &'a CVec<Self>,
                {
                    if let Toy::Var(_) = self {
                        return vec![];
                    }
                    let ks: Vec<&CVec<Self>> =
                        self.children().iter().map(|i| get_cvec(i)).collect();
                    (0..cvec_len)
                        .map(|i| {
                            let vs: Vec<_> = ks
                                .iter()
                                .map(|k| k.get(i).cloned().flatten().map(|n| n.0))
                                .collect();
                            op(self, &vs).map(Num)
                        })
                        .collect()
                }
                fn initialize_vars(egraph: &mut EGraph<Self, SynthAnalysis>, vars: &[String]) {
                    let samples: Vec<i64> = $samples;
                    let consts: Vec<Option<Num>> =
                        samples.into_iter().map(|n| Some(Num(n))).collect();
                    let cvecs = self_product(&consts, vars.len());
                    egraph.analysis.cvec_len = consts.len().pow(vars.len() as u32);
                    for (i, v) in vars.iter().enumerate() {
                        let id = egraph.add(Toy::Var(Symbol::from(v.clone())));
                        egraph[id].data.cvec = cvecs[i].clone();
                    }
                }
                fn to_var(&self) -> Option<Symbol> {
                    if let Toy::Var(s) = self {
                        Some(*s)
                    } else {
                        None
                    }
                }
                fn mk_var(sym: Symbol) -> Self {
                    Toy::Var(sym)
                }
                fn is_constant(&self) -> bool {
                    matches!(self, Toy::Lit(_))
                }
                fn mk_constant(c: Num, _: &mut EGraph<Self, SynthAnalysis>) -> Self {
                    Toy::Lit(c)
                }
                fn is_fast_forwarding() -> bool {
                    $ff
                }
                fn get_exploratory_rules() -> Ruleset<Self> {
                    let t: Vec<&str> = $expl;
                    Ruleset::new(t)
                }
                fn is_allowed_op(&self) -> bool {
                    let f: fn(&Toy) -> bool = $allowed;
                    f(self)
                }
                /// both sides undefined or equal on every assignment, defined somewhere
                fn validate(lhs: &Pattern<Self>, rhs: &Pattern<Self>) -> ValidationResult {
                    let l = Self::instantiate(lhs);
                    let r = Self::instantiate(rhs);
                    let mut vars: Vec<Symbol> = vec![];
                    for n in l.as_ref().iter().chain(r.as_ref()) {
                        if let Toy::Var(s) = n {
                            if !vars.contains(s) {
                                vars.push(*s);
                            }
                        }
                    }
                    let mut some = false;
                    for a in 0..3usize.pow(vars.len() as u32) {
                        let (x, y) = (ev(l.as_ref(), &vars, a), ev(r.as_ref(), &vars, a));
                        if x != y {
                            return ValidationResult::Invalid;
                        }
                        some |= x.is_some();
                    }
                    if some {
                        ValidationResult::Valid
                    } else {
                        ValidationResult::Unknown
                    }
                }
            }
        }
    };
}
toy!(toy, vec![0, 1], |_| true, false, vec![]);
toy!(toyf, vec![0, 1, 2], |_| true, false, vec![]);
// fast-forwarding domain: `g` and `s` are not allowed in rules
toy!(
    toyx,
    vec![0, 1, 2],
    |n| !matches!(n, Toy::Sub(_) | Toy::Suc(_)),
    true,
    vec![
        "(+ ?a 1) <=> (s ?a)",
        "(~ ?a) <=> (g 0 ?a)",
        "(+ ?a ?b) ==> (+ ?b ?a)",
        "(g ?a ?a) ==> 0",
        "(+ ?a (g 0 ?b)) <=> (g ?a ?b)",
        "(s (s (s ?a))) ==> ?a",
        "(m ?a 1 ?b) <=> (+ ?a ?b)",
    ]
);

