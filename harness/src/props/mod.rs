use crate::report::Report;
use crate::rng::Rng;
use crate::run::{Opts, Out};
use std::cell::RefCell;
use std::rc::Rc;
pub struct Ctx {
    pub rng: Rng,
    pub rep: Report,
    pub worker: usize,
    pub workers: usize,
    pub thorough: bool,
    pub seed: u64,
    pub deadline: std::time::Instant,
}
impl Ctx {
    /// iterations for this worker: `quick` per worker in the quick tier
    pub fn iters(&self, quick: usize) -> usize {
        if self.thorough {
            quick * 14
        } else {
            quick
        }
    }
    pub fn late(&self) -> bool {
        std::time::Instant::now() > self.deadline || crate::run::STOP.with(|s| s.get())
    }
    /// Runs the workloads of the named properties and shows the first `quota` instances of each
    /// to `f`; what their own oracles say is dropped.
    pub fn workloads(&mut self, names: &[&str], quota: usize, f: impl FnMut(&str, &str, &str, &Opts, &Out, &mut Report) + 'static) {
        let f = Rc::new(RefCell::new(f));
        let rep = Rc::new(RefCell::new(std::mem::take(&mut self.rep)));
        let quota = if self.thorough { quota * 14 } else { quota };
        for n in names {
            if self.late() {
                break;
            }
            let mut sub = Ctx {
                rng: Rng::new(self.rng.next()),
                rep: Report::default(),
                worker: self.worker,
                workers: self.workers,
                thorough: self.thorough,
                seed: self.seed,
                deadline: self.deadline,
            };
            let (g, rp) = (f.clone(), rep.clone());
            let mut left = quota;
            let name = n.to_string();
            let obs = move |pb: &str, pf: &str, o: &Opts, out: &Out| {
                if left > 0 {
                    left -= 1;
                    rp.borrow_mut().count(&format!("from:{name}"));
                    (*g.borrow_mut())(&name, pb, pf, o, out, &mut rp.borrow_mut());
                }
                if left == 0 {
                    crate::run::STOP.with(|s| s.set(true));
                }
            };
            crate::run::observing(Box::new(obs), || get(n).unwrap()(&mut sub));
        }
        self.rep = Rc::try_unwrap(rep).ok().unwrap().into_inner();
    }
}
pub mod c01;
pub mod c02;
pub mod c03;
pub mod c04;
pub mod c05;
pub mod c06;
pub mod c07;
pub mod c08;
pub mod c09;
pub mod c10;
pub mod c11;
pub mod c12;
pub mod c13;
pub mod c14;
pub mod c15;
pub mod c16;
pub mod c17;
pub mod c18;
pub mod c19;
pub mod c20;
pub mod c21;
pub mod c22;
pub mod c23;
pub mod c24;
pub mod c25;
pub mod c26;
pub mod c27;
pub mod c28;
pub mod c29;
pub mod c30;
pub mod c31;
pub mod c32;

pub type Prop = fn(&mut Ctx);
pub fn get(id: &str) -> Option<Prop> {
    Some(match id {
        "C01" => c01::run,
        "C02" => c02::run,
        "C03" => c03::run,
        "C04" => c04::run,
        "C05" => c05::run,
        "C06" => c06::run,
        "C07" => c07::run,
        "C08" => c08::run,
        "C09" => c09::run,
        "C10" => c10::run,
        "C11" => c11::run,
        "C12" => c12::run,
        "C13" => c13::run,
        "C14" => c14::run,
        "C15" => c15::run,
        "C16" => c16::run,
        "C17" => c17::run,
        "C18" => c18::run,
        "C19" => c19::run,
        "C20" => c20::run,
        "C21" => c21::run,
        "C22" => c22::run,
        "C23" => c23::run,
        "C24" => c24::run,
        "C25" => c25::run,
        "C26" => c26::run,
        "C27" => c27::run,
        "C28" => c28::run,
        "C29" => c29::run,
        "C30" => c30::run,
        "C31" => c31::run,
        "C32" => c32::run,
        _ => return None,
    })
}
