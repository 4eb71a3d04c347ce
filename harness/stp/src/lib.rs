//! Stand-in for scoped_threadpool used only when the decoder is executed symbolically.
//! Jobs are closures over disjoint data (the real crate needs `Send`), so a schedule is an order
//! of jobs and of the steps of the submitting thread between submissions. Mode (parameter 31): 0 jobs run when
//! submitted; 1 they run at the join in an order picked by `zs_choose`; 2 after every submission `zs_choose` picks which of
//! the waiting jobs run, in which order, and how many of them; 3 (natively, for the race detector) one thread per job.
//! `zs_job` tells the executor which thread's steps follow: 0 job submitted, 1 it starts, 2 it ends, 3 all are joined.
use std::cell::{Cell, RefCell};
extern "C" { fn zs_choose(n: usize) -> usize; fn zs_param(i: usize) -> i64; fn zs_job(phase: usize, id: usize); }
type Job<'s> = Box<dyn FnOnce() + Send + 's>;
pub struct Pool { n: u32 }
pub struct Scope<'p, 's> { jobs: RefCell<Vec<(usize, Job<'s>)>>, mode: i64, next: Cell<usize>, #[cfg(feature = "threads")] th: RefCell<Vec<std::thread::JoinHandle<()>>>, _p: std::marker::PhantomData<&'p ()> }
#[inline(never)]
fn run(id: usize, j: Job) { unsafe { zs_job(1, id) } call(j); unsafe { zs_job(2, id) } }
#[inline(never)]
fn call(j: Job) { j() }
impl Pool {
    pub fn new(n: u32) -> Pool { assert!(n >= 1); Pool { n } }
    pub fn thread_count(&self) -> u32 { self.n }
    pub fn scoped<'p, 's, F, R>(&'p mut self, f: F) -> R where F: FnOnce(&Scope<'p, 's>) -> R {
        let s = Scope { jobs: RefCell::new(Vec::new()), mode: unsafe { zs_param(31) }, next: Cell::new(0), #[cfg(feature = "threads")] th: RefCell::new(Vec::new()), _p: std::marker::PhantomData };
        let r = f(&s);
        s.join_all();
        r
    }
}
impl<'p, 's> Scope<'p, 's> {
    pub fn execute<F>(&self, f: F) where F: FnOnce() + Send + 's {
        let id = self.next.get();
        self.next.set(id + 1);
        let f: Job<'s> = Box::new(f);
        #[cfg(feature = "threads")]
        if self.mode == 3 { // the scope joins every thread before it ends
            let f: Job<'static> = unsafe { std::mem::transmute(f) };
            return self.th.borrow_mut().push(std::thread::spawn(f));
        }
        unsafe { zs_job(0, id) }
        if self.mode == 0 { return run(id, f); }
        self.jobs.borrow_mut().push((id, f));
        while self.mode == 2 {
            let n = self.jobs.borrow().len();
            if n == 0 { break; }
            let i = unsafe { zs_choose(n + 1) };
            if i == 0 || i > n { break; }
            let (id, j) = self.jobs.borrow_mut().remove(i - 1);
            run(id, j);
        }
    }
    pub fn join_all(&self) {
        loop {
            let n = self.jobs.borrow().len();
            if n == 0 { break; }
            let i = unsafe { zs_choose(n) };
            let (id, j) = self.jobs.borrow_mut().remove(if i < n { i } else { 0 });
            run(id, j);
        }
        #[cfg(feature = "threads")]
        for t in self.th.borrow_mut().drain(..) { t.join().expect("job"); }
        unsafe { zs_job(3, 0) }
    }
}
#[cfg(feature = "threads")]
impl<'p, 's> Drop for Scope<'p, 's> { fn drop(&mut self) { self.join_all() } }
