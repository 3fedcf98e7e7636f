//! Runs a gadget through the debug evaluator (outputs are observed) and through the compiler
//! (outputs are claimed, the layered circuit decides).
use arith::Field as _;
use expander_compiler::circuit::config::Config;
use expander_compiler::frontend::extra::{debug_eval, HintCaller};
use expander_compiler::frontend::internal::DumpLoadTwoVariables;
use expander_compiler::frontend::*;
use std::any::Any;
use std::cell::RefCell;
use vpc::catch;

pub type F<C> = CircuitField<C>;

/// A computation over `x`; the returned variables are its outputs.
pub trait Gadget<C: Config>: Clone {
    fn build<B: RootAPI<C>>(&self, b: &mut B, x: &[Variable]) -> Vec<Variable>;
}

thread_local! {
    static OUT: RefCell<Option<Box<dyn Any>>> = const { RefCell::new(None) };
}

#[derive(Clone)]
struct Circ<G> {
    g: G,
    x: Vec<Variable>,
    y: Vec<Variable>,
    claim: bool,
}
impl<G> DumpLoadTwoVariables<Variable> for Circ<G> {
    fn dump_into(&self, vars: &mut Vec<Variable>, _: &mut Vec<Variable>) {
        vars.extend(&self.x);
        vars.extend(&self.y);
    }
    fn load_from(&mut self, vars: &mut &[Variable], _: &mut &[Variable]) {
        for v in self.x.iter_mut().chain(&mut self.y) {
            *v = vars[0];
            *vars = &vars[1..];
        }
    }
    fn num_vars(&self) -> (usize, usize) {
        (self.x.len() + self.y.len(), 0)
    }
}
struct Asg<T>(Vec<T>);
impl<T: Clone> DumpLoadTwoVariables<T> for Asg<T> {
    fn dump_into(&self, vars: &mut Vec<T>, _: &mut Vec<T>) {
        vars.extend(self.0.iter().cloned());
    }
    fn load_from(&mut self, _: &mut &[T], _: &mut &[T]) {
        unreachable!()
    }
    fn num_vars(&self) -> (usize, usize) {
        (self.0.len(), 0)
    }
}
impl<C: Config, G: Gadget<C>> Define<C> for Circ<G> {
    fn define<B: RootAPI<C>>(&self, b: &mut B) {
        let out = self.g.build(b, &self.x);
        if self.claim {
            assert_eq!(out.len(), self.y.len(), "number of outputs");
            for (o, y) in out.iter().zip(&self.y) {
                b.assert_is_equal(*o, *y);
            }
        } else {
            let vals: Vec<F<C>> = out.iter().map(|v| b.constant_value(*v).expect("value in debug mode")).collect();
            OUT.with(|o| *o.borrow_mut() = Some(Box::new(vals)));
        }
    }
}

/// Outputs on concrete inputs, or why the evaluation was refused.
pub fn run<C: Config, G: Gadget<C>>(g: &G, x: &[F<C>], h: impl HintCaller<F<C>>) -> Result<Vec<F<C>>, String> {
    let c = Circ { g: g.clone(), x: vec![Variable::default(); x.len()], y: vec![], claim: false };
    OUT.with(|o| *o.borrow_mut() = None);
    catch(|| debug_eval::<C, _, _, _>(&c, &Asg(x.to_vec()), h))?;
    let v = OUT.with(|o| o.borrow_mut().take()).ok_or("no outputs")?;
    Ok(*v.downcast::<Vec<F<C>>>().unwrap())
}

pub struct Compiled<C: Config>(CompileResult<C>, pub usize, pub usize);
pub fn build<C: Config, G: Gadget<C>>(g: &G, n_in: usize, n_out: usize) -> Result<Compiled<C>, String> {
    let c = Circ { g: g.clone(), x: vec![Variable::default(); n_in], y: vec![Variable::default(); n_out], claim: true };
    catch(|| compile(&c, CompileOptions::default()))?.map(|r| Compiled(r, n_in, n_out)).map_err(|e| format!("{e:?}"))
}
impl<C: Config> Compiled<C> {
    /// Does the compiled circuit accept the claim that the outputs on `x` are `y`?
    pub fn accepts(&self, x: &[F<C>], y: &[F<C>], h: &impl HintCaller<F<C>>) -> Result<bool, String> {
        let w = match catch(|| self.0.witness_solver.solve_witness_with_hints(&Asg([x, y].concat()), h))? {
            Ok(w) => w,
            Err(_) => return Ok(false),
        };
        let r = catch(|| self.0.layered_circuit.run(&w))?;
        Ok(r.iter().all(|b| *b))
    }
}
pub fn f<C: Config>(v: u32) -> F<C> {
    F::<C>::from(v)
}
pub fn fs<C: Config>(v: &[u32]) -> Vec<F<C>> {
    v.iter().map(|v| f::<C>(*v)).collect()
}
pub fn u<C: Config>(v: &[F<C>]) -> Vec<u32> {
    v.iter().map(|v| v.to_u256().try_into().unwrap_or(u32::MAX)).collect()
}
/// `inner`, with the answers of chosen calls replaced.
pub struct Lying<H, L> {
    pub inner: H,
    pub lie: L,
}
impl<Fi: expander_compiler::field::Field + 'static, H: HintCaller<Fi>, L> HintCaller<Fi> for Lying<H, L>
where
    L: Fn(usize, &[Fi], &mut Vec<Fi>) + Sync + 'static,
{
    fn call(&self, id: usize, args: &[Fi], n: usize) -> Result<Vec<Fi>, expander_compiler::utils::error::Error> {
        // an honest answer may not exist for the false statement: then lie from scratch
        let mut v = catch(|| self.inner.call(id, args, n)).ok().and_then(|r| r.ok()).unwrap_or_else(|| vec![Fi::zero(); n]);
        (self.lie)(id, args, &mut v);
        Ok(v)
    }
}
