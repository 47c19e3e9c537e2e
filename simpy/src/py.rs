//! Calling Python from a scenario. No Python exception reaches Rust: a shim turns it into a value.
use pyo3::prelude::*;
use pyo3::types::*;
use pyo3::ffi;
use std::os::raw::c_char;
use crate::parity::*;
use crate::value::*;
use simrt::*;

extern "C" {
    fn PyInit_ms_toollib() -> *mut ffi::PyObject;
}
const SHIM: &str = "
import ms_toollib as ms
# types made at their first use are made now: no run may depend on the ones before
ms.SafeBoard([[0, 0], [0, 0]])[0]
try:
    ms.cal_bbbv([])
except BaseException:
    pass
try:
    ms.EvfVideo('/nonexistent').parse_video()
except BaseException:
    pass
def get(o, n):
    try:
        return (True, getattr(o, n))
    except BaseException as e:
        return (False, type(e).__name__ + ': ' + str(e))
def put(o, n, v):
    try:
        setattr(o, n, v)
        return (True, None)
    except BaseException as e:
        return (False, type(e).__name__ + ': ' + str(e))
def call(o, n, a):
    try:
        return (True, getattr(o, n)(*a))
    except BaseException as e:
        return (False, type(e).__name__ + ': ' + str(e))
def item(o, i):
    try:
        return (True, o[i])
    except BaseException as e:
        return (False, type(e).__name__ + ': ' + str(e))
";
static mut GET: Option<Py<PyAny>> = None;
static mut PUT: Option<Py<PyAny>> = None;
static mut CALL: Option<Py<PyAny>> = None;
static mut ITEM: Option<Py<PyAny>> = None;
static mut MS: Option<Py<PyAny>> = None;
pub fn init() {
    unsafe {
        ffi::PyImport_AppendInittab("ms_toollib\0".as_ptr() as *const c_char, Some(init_module));
    }
    pyo3::prepare_freethreaded_python();
    Python::with_gil(|py| {
        let m = PyModule::from_code(py, SHIM, "shim.py", "shim").expect("the Python package does not import");
        let f = |n: &str| Some(m.getattr(n).unwrap().into_py(py));
        unsafe {
            GET = f("get");
            PUT = f("put");
            CALL = f("call");
            ITEM = f("item");
            MS = f("ms");
        }
        // collections at arbitrary moments would only cost time
        let _ = py.run("import gc; gc.disable()", None, None);
    });
}
extern "C" fn init_module() -> *mut ffi::PyObject {
    unsafe { PyInit_ms_toollib() }
}
/// An object on the Python side.
pub struct Obj(Py<PyAny>);
fn shim(f: &Option<Py<PyAny>>, py: Python<'_>, a: impl IntoPy<Py<PyTuple>>, what: &str) -> Result<Py<PyAny>, String> {
    let f = f.as_ref().unwrap();
    let r = match f.call1(py, a) {
        Ok(r) => r,
        Err(e) => fail("python", format!("{what}: the shim raised {e}")),
    };
    let (ok, v): (bool, Py<PyAny>) = r.extract(py).unwrap();
    if ok {
        Ok(v)
    } else {
        Err(v.extract::<String>(py).unwrap_or_default())
    }
}
#[allow(static_mut_refs)]
impl Obj {
    pub fn module() -> Obj {
        Python::with_gil(|py| Obj(unsafe { MS.as_ref().unwrap().clone_ref(py) }))
    }
    pub fn get(&self, n: &str) -> Result<Obj, String> {
        Python::with_gil(|py| shim(unsafe { &GET }, py, (&self.0, n), n).map(Obj))
    }
    pub fn put(&self, n: &str, v: impl IntoPy<Py<PyAny>>) -> Result<Obj, String> {
        Python::with_gil(|py| shim(unsafe { &PUT }, py, (&self.0, n.strip_prefix("set_").unwrap_or(n), v), n).map(Obj))
    }
    pub fn call(&self, n: &str, a: impl IntoPy<Py<PyTuple>>) -> Result<Obj, String> {
        Python::with_gil(|py| {
            let a: Py<PyTuple> = a.into_py(py);
            shim(unsafe { &CALL }, py, (&self.0, n, a), n).map(Obj)
        })
    }
    pub fn item(&self, i: usize) -> Result<Obj, String> {
        Python::with_gil(|py| shim(unsafe { &ITEM }, py, (&self.0, i), "[]").map(Obj))
    }
    pub fn v(&self) -> V {
        Python::with_gil(|py| value(self.0.as_ref(py)))
    }
}
/// What an attribute of a Python object holds.
pub fn attr(o: &Obj, n: &str) -> V {
    o.get(n).map_or(V::Err, |x| x.v())
}
pub fn ask(o: &Obj, n: &str, a: impl IntoPy<Py<PyTuple>>) -> V {
    o.call(n, a).map_or(V::Err, |x| x.v())
}
fn value(a: &PyAny) -> V {
    if a.is_none() {
        V::Nothing
    } else if let Ok(b) = a.downcast::<PyBool>() {
        V::I(b.is_true() as i64)
    } else if a.is_instance_of::<PyFloat>() {
        a.extract::<f64>().unwrap().to()
    } else if a.is_instance_of::<PyLong>() {
        a.extract::<i64>().map_or_else(|_| V::I(a.extract::<u64>().unwrap_or(0) as i64), V::I)
    } else if let Ok(s) = a.downcast::<PyString>() {
        V::S(s.to_string())
    } else if let Ok(b) = a.downcast::<PyBytes>() {
        V::L(b.as_bytes().iter().map(|x| x.to()).collect())
    } else if let Ok(l) = a.downcast::<PyList>() {
        V::L(l.iter().map(value).collect())
    } else if let Ok(l) = a.downcast::<PyTuple>() {
        V::L(l.iter().map(value).collect())
    } else {
        V::S(a.get_type().name().unwrap_or("?").to_string())
    }
}
