//! Trying something out: runs calls inside one contract invocation that is rolled back afterwards.
use crate::engine::{fail, R};
use crate::world::W;
use soroban_sdk::{contract, contractimpl, Env, Error};
use std::cell::RefCell;
use std::rc::Rc;

thread_local! {
    static JOB: RefCell<Option<Box<dyn FnOnce()>>> = const { RefCell::new(None) };
}

#[contract]
pub struct Probe;

#[contractimpl]
impl Probe {
    pub fn run(_env: Env) -> Result<(), Error> {
        let job = JOB.with(|j| j.borrow_mut().take());
        if let Some(f) = job {
            f();
        }
        Err(Error::from_contract_error(77))
    }
}

/// What `f` returns, with every effect of the calls it made undone.
pub fn probe<T: 'static>(w: &W, f: impl FnOnce(&W) -> T + 'static) -> R<T> {
    let id = w.env.register(Probe, ());
    let out: Rc<RefCell<Option<T>>> = Rc::new(RefCell::new(None));
    let (o, w2) = (out.clone(), w.clone());
    JOB.with(|j| *j.borrow_mut() = Some(Box::new(move || *o.borrow_mut() = Some(f(&w2)))));
    w.env.mock_all_auths_allowing_non_root_auth();
    let _ = w.call::<()>(&id, "run", ());
    w.env.mock_all_auths();
    let r = out.borrow_mut().take();
    match r {
        Some(v) => Ok(v),
        None => fail("probe", "a trial run could not be completed"),
    }
}
