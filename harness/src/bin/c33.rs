//! Every operation executes only instructions of the build's target processor.
use fv::prelude::*;
use fv::step;

macro_rules! parts { ($($m:ident $p:tt)*) => { $( #[path = $p] mod $m; )* fn all() -> Vec<Check> { vec![$($m::$m()),*] } } }
parts!(c13 "c13.rs" c14 "c14.rs" c15 "c15.rs" c16 "c16.rs" c17 "c17.rs" c18 "c18.rs" c19 "c19.rs" c20 "c20.rs" c21 "c21.rs" c22 "c22.rs" c23 "c23.rs");

const RULE: &str = "A case draws an operation (every operation of every vector type of the other checks of operations) and operands for it, and executes it one instruction at a time; each instruction of the program is judged by the instruction set of the processor the build is for. Non-trivial when at least 3 instructions were stepped.";
fn c33() -> Check {
    let mut k = Check::new("C33", RULE, 2, 40);
    for part in all() {
        let whole = part.id == "C22";
        for v in part.variants {
            if v.exhaustive > 0 || v.blocks > 0 { continue; }
            let f = v.f;
            k.add(&format!("{} {}", part.id, v.name), move |s, c| {
                let (n, bad) = step::judge(whole, || { let _ = f(s, c); });
                c.nontrivial = n >= 3;
                match bad {
                    None => Ok(()),
                    Some(m) => { let w = m.find('|').unwrap(); Err(Fail::new(&format!("needs-{}", &m[..w]), m[w + 1..].to_string())) }
                }
            });
        }
    }
    k
}
fn main() { main_with(c33) }
