//! Stand-in for the crate pyo3-ffi, which cannot be fetched here: declarations of exactly the
//! parts of CPython's C API the extension uses (CPython 3.12, 64-bit), written from Python.h.
#![allow(non_snake_case, non_upper_case_globals, non_camel_case_types, clippy::all)]
pub use core::ffi::{c_char, c_double, c_int, c_long, c_longlong, c_uchar, c_uint, c_ulong, c_void};

pub type Py_ssize_t = isize;
pub type Py_hash_t = isize;

#[repr(C)]
pub struct PyObject { pub ob_refcnt: isize, pub ob_type: *mut PyTypeObject }
#[repr(C)]
pub struct PyVarObject { pub ob_base: PyObject, pub ob_size: isize }

pub type visitproc = unsafe extern "C" fn(*mut PyObject, *mut c_void) -> c_int;
pub type traverseproc = unsafe extern "C" fn(*mut PyObject, visitproc, *mut c_void) -> c_int;
pub type inquiry = unsafe extern "C" fn(*mut PyObject) -> c_int;
pub type freefunc = unsafe extern "C" fn(*mut c_void);
pub type allocfunc = unsafe extern "C" fn(*mut PyTypeObject, isize) -> *mut PyObject;

#[repr(C)]
pub struct PyTypeObject {
    pub ob_base: PyVarObject,
    pub tp_name: *const c_char,
    pub tp_basicsize: isize,
    pub tp_itemsize: isize,
    pub tp_dealloc: *mut c_void,
    pub tp_vectorcall_offset: isize,
    pub tp_getattr: *mut c_void,
    pub tp_setattr: *mut c_void,
    pub tp_as_async: *mut c_void,
    pub tp_repr: *mut c_void,
    pub tp_as_number: *mut c_void,
    pub tp_as_sequence: *mut c_void,
    pub tp_as_mapping: *mut c_void,
    pub tp_hash: *mut c_void,
    pub tp_call: *mut c_void,
    pub tp_str: *mut c_void,
    pub tp_getattro: *mut c_void,
    pub tp_setattro: *mut c_void,
    pub tp_as_buffer: *mut c_void,
    pub tp_flags: c_ulong,
    pub tp_doc: *const c_char,
    pub tp_traverse: *mut c_void,
    pub tp_clear: *mut c_void,
    pub tp_richcompare: *mut c_void,
    pub tp_weaklistoffset: isize,
    pub tp_iter: *mut c_void,
    pub tp_iternext: *mut c_void,
    pub tp_methods: *mut c_void,
    pub tp_members: *mut c_void,
    pub tp_getset: *mut c_void,
    pub tp_base: *mut PyTypeObject,
    pub tp_dict: *mut PyObject,
    pub tp_descr_get: *mut c_void,
    pub tp_descr_set: *mut c_void,
    pub tp_dictoffset: isize,
    pub tp_init: *mut c_void,
    pub tp_alloc: Option<allocfunc>,
    pub tp_new: *mut c_void,
    pub tp_free: *mut c_void,
}

pub type PyCFunction = unsafe extern "C" fn(*mut PyObject, *mut PyObject) -> *mut PyObject;
pub type PyCFunctionFast = unsafe extern "C" fn(*mut PyObject, *mut *mut PyObject, isize) -> *mut PyObject;
pub type PyCFunctionWithKeywords =
    unsafe extern "C" fn(*mut PyObject, *mut PyObject, *mut PyObject) -> *mut PyObject;
pub type PyCMethodFn = unsafe extern "C" fn(
    *mut PyObject, *mut PyTypeObject, *const *mut PyObject, isize, *mut PyObject) -> *mut PyObject;

#[repr(C)]
#[derive(Copy, Clone)]
pub union PyMethodDefPointer {
    pub PyCFunction: PyCFunction,
    pub PyCFunctionFast: PyCFunctionFast,
    pub PyCFunctionWithKeywords: PyCFunctionWithKeywords,
    pub PyCMethod: PyCMethodFn,
    pub Void: *mut c_void,
}
#[repr(C)]
#[derive(Copy, Clone)]
pub struct PyMethodDef {
    pub ml_name: *const c_char,
    pub ml_meth: PyMethodDefPointer,
    pub ml_flags: c_int,
    pub ml_doc: *const c_char,
}
impl PyMethodDef {
    pub const fn zeroed() -> Self {
        PyMethodDef { ml_name: core::ptr::null(), ml_meth: PyMethodDefPointer { Void: core::ptr::null_mut() },
            ml_flags: 0, ml_doc: core::ptr::null() }
    }
}
unsafe impl Sync for PyMethodDef {}

pub type getter = unsafe extern "C" fn(*mut PyObject, *mut c_void) -> *mut PyObject;
pub type setter = unsafe extern "C" fn(*mut PyObject, *mut PyObject, *mut c_void) -> c_int;
#[repr(C)]
#[derive(Copy, Clone)]
pub struct PyGetSetDef {
    pub name: *const c_char,
    pub get: Option<getter>,
    pub set: Option<setter>,
    pub doc: *const c_char,
    pub closure: *mut c_void,
}
impl Default for PyGetSetDef {
    fn default() -> Self { unsafe { core::mem::zeroed() } }
}
#[repr(C)]
#[derive(Copy, Clone)]
pub struct PyType_Slot { pub slot: c_int, pub pfunc: *mut c_void }
#[repr(C)]
#[derive(Copy, Clone)]
pub struct PyType_Spec {
    pub name: *const c_char, pub basicsize: c_int, pub itemsize: c_int, pub flags: c_uint,
    pub slots: *mut PyType_Slot,
}
#[repr(C)]
pub struct PyModuleDef_Base {
    pub ob_base: PyObject, pub m_init: *mut c_void, pub m_index: isize, pub m_copy: *mut PyObject,
}
#[repr(C)]
pub struct PyModuleDef_Slot { pub slot: c_int, pub value: *mut c_void }
#[repr(C)]
pub struct PyModuleDef {
    pub m_base: PyModuleDef_Base,
    pub m_name: *const c_char,
    pub m_doc: *const c_char,
    pub m_size: isize,
    pub m_methods: *mut PyMethodDef,
    pub m_slots: *mut PyModuleDef_Slot,
    pub m_traverse: Option<traverseproc>,
    pub m_clear: Option<inquiry>,
    pub m_free: Option<freefunc>,
}
pub const PyModuleDef_HEAD_INIT: PyModuleDef_Base = PyModuleDef_Base {
    ob_base: PyObject { ob_refcnt: 4294967295, ob_type: core::ptr::null_mut() },
    m_init: core::ptr::null_mut(), m_index: 0, m_copy: core::ptr::null_mut() };

pub const METH_VARARGS: c_int = 1;
pub const METH_KEYWORDS: c_int = 2;
pub const METH_NOARGS: c_int = 4;
pub const METH_O: c_int = 8;
pub const METH_CLASS: c_int = 16;
pub const METH_STATIC: c_int = 32;
pub const METH_FASTCALL: c_int = 128;
pub const METH_METHOD: c_int = 512;
pub const Py_LT: c_int = 0;
pub const Py_LE: c_int = 1;
pub const Py_EQ: c_int = 2;
pub const Py_NE: c_int = 3;
pub const Py_GT: c_int = 4;
pub const Py_GE: c_int = 5;
pub const Py_nb_absolute: c_int = 6;
pub const Py_nb_add: c_int = 7;
pub const Py_nb_bool: c_int = 9;
pub const Py_nb_floor_divide: c_int = 12;
pub const Py_nb_multiply: c_int = 29;
pub const Py_nb_negative: c_int = 30;
pub const Py_nb_positive: c_int = 32;
pub const Py_nb_remainder: c_int = 34;
pub const Py_nb_subtract: c_int = 36;
pub const Py_nb_true_divide: c_int = 37;
pub const Py_tp_dealloc: c_int = 52;
pub const Py_tp_doc: c_int = 56;
pub const Py_tp_hash: c_int = 59;
pub const Py_tp_methods: c_int = 64;
pub const Py_tp_new: c_int = 65;
pub const Py_tp_repr: c_int = 66;
pub const Py_tp_richcompare: c_int = 67;
pub const Py_tp_str: c_int = 70;
pub const Py_tp_getset: c_int = 73;
pub const Py_tp_free: c_int = 74;
pub const Py_mod_exec: c_int = 2;
pub const Py_mod_multiple_interpreters: c_int = 3;
pub const Py_MOD_PER_INTERPRETER_GIL_SUPPORTED: *mut c_void = 2 as *mut c_void;
pub const Py_TPFLAGS_IMMUTABLETYPE: c_ulong = 1 << 8;
pub const Py_TPFLAGS_DEFAULT: c_ulong = 1 << 18;
const TPFLAGS_LONG: c_ulong = 1 << 24;
const TPFLAGS_BYTES: c_ulong = 1 << 27;
const TPFLAGS_UNICODE: c_ulong = 1 << 28;

#[repr(C)]
pub struct PyDateTime_CAPI {
    pub DateType: *mut PyTypeObject,
    pub DateTimeType: *mut PyTypeObject,
    pub TimeType: *mut PyTypeObject,
    pub DeltaType: *mut PyTypeObject,
    pub TZInfoType: *mut PyTypeObject,
    pub TimeZone_UTC: *mut PyObject,
    pub Date_FromDate: unsafe extern "C" fn(c_int, c_int, c_int, *mut PyTypeObject) -> *mut PyObject,
    pub DateTime_FromDateAndTime: unsafe extern "C" fn(c_int, c_int, c_int, c_int, c_int, c_int, c_int,
        *mut PyObject, *mut PyTypeObject) -> *mut PyObject,
    pub Time_FromTime: unsafe extern "C" fn(c_int, c_int, c_int, c_int, *mut PyObject, *mut PyTypeObject)
        -> *mut PyObject,
    pub Delta_FromDelta: unsafe extern "C" fn(c_int, c_int, c_int, c_int, *mut PyTypeObject) -> *mut PyObject,
    pub TimeZone_FromTimeZone: unsafe extern "C" fn(*mut PyObject, *mut PyObject) -> *mut PyObject,
    pub DateTime_FromTimestamp: unsafe extern "C" fn(*mut PyTypeObject, *mut PyObject, *mut PyObject)
        -> *mut PyObject,
    pub Date_FromTimestamp: unsafe extern "C" fn(*mut PyTypeObject, *mut PyObject) -> *mut PyObject,
    pub DateTime_FromDateAndTimeAndFold: unsafe extern "C" fn(c_int, c_int, c_int, c_int, c_int, c_int,
        c_int, *mut PyObject, c_int, *mut PyTypeObject) -> *mut PyObject,
    pub Time_FromTimeAndFold: unsafe extern "C" fn(c_int, c_int, c_int, c_int, *mut PyObject, c_int,
        *mut PyTypeObject) -> *mut PyObject,
}
unsafe impl Sync for PyDateTime_CAPI {}

extern "C" {
    static mut _Py_NoneStruct: PyObject;
    static mut _Py_TrueStruct: PyObject;
    static mut _Py_FalseStruct: PyObject;
    static mut _Py_NotImplementedStruct: PyObject;
    static mut PyFloat_Type: PyTypeObject;
    pub static mut PyExc_TypeError: *mut PyObject;
    pub static mut PyExc_ValueError: *mut PyObject;
    pub static mut PyExc_ZeroDivisionError: *mut PyObject;
    pub static mut PyExc_OSError: *mut PyObject;
    pub static mut PyExc_RuntimeError: *mut PyObject;
    pub static mut PyExc_OverflowError: *mut PyObject;

    pub fn Py_IncRef(o: *mut PyObject);
    pub fn Py_DecRef(o: *mut PyObject);
    pub fn PyType_IsSubtype(a: *mut PyTypeObject, b: *mut PyTypeObject) -> c_int;
    pub fn PyType_GetModule(t: *mut PyTypeObject) -> *mut PyObject;
    pub fn PyType_GetModuleState(t: *mut PyTypeObject) -> *mut c_void;
    pub fn PyType_GetSlot(t: *mut PyTypeObject, s: c_int) -> *mut c_void;
    pub fn PyType_FromModuleAndSpec(m: *mut PyObject, s: *mut PyType_Spec, b: *mut PyObject) -> *mut PyObject;
    pub fn PyModule_GetState(m: *mut PyObject) -> *mut c_void;
    pub fn PyModule_AddType(m: *mut PyObject, t: *mut PyTypeObject) -> c_int;
    pub fn PyModuleDef_Init(d: *mut PyModuleDef) -> *mut PyObject;
    pub fn PyUnicode_InternFromString(s: *const c_char) -> *mut PyObject;
    pub fn PyUnicode_FromStringAndSize(s: *const c_char, n: isize) -> *mut PyObject;
    pub fn PyUnicode_AsUTF8AndSize(o: *mut PyObject, n: *mut isize) -> *const c_char;
    pub fn PyObject_GetAttrString(o: *mut PyObject, s: *const c_char) -> *mut PyObject;
    pub fn PyObject_SetAttrString(o: *mut PyObject, s: *const c_char, v: *mut PyObject) -> c_int;
    pub fn PyObject_Repr(o: *mut PyObject) -> *mut PyObject;
    pub fn PyObject_IsInstance(o: *mut PyObject, t: *mut PyObject) -> c_int;
    pub fn PyNumber_TrueDivide(a: *mut PyObject, b: *mut PyObject) -> *mut PyObject;
    pub fn PyObject_RichCompareBool(a: *mut PyObject, b: *mut PyObject, op: c_int) -> c_int;
    pub fn PyObject_Call(f: *mut PyObject, a: *mut PyObject, k: *mut PyObject) -> *mut PyObject;
    pub fn PyObject_CallOneArg(f: *mut PyObject, a: *mut PyObject) -> *mut PyObject;
    pub fn PyObject_CallNoArgs(f: *mut PyObject) -> *mut PyObject;
    pub fn PyObject_CallMethod(o: *mut PyObject, n: *const c_char, f: *const c_char, ...) -> *mut PyObject;
    pub fn PyObject_VectorcallMethod(n: *mut PyObject, a: *const *mut PyObject, nf: usize, k: *mut PyObject)
        -> *mut PyObject;
    pub fn PyImport_ImportModule(s: *const c_char) -> *mut PyObject;
    pub fn PyArg_ParseTupleAndKeywords(a: *mut PyObject, k: *mut PyObject, f: *const c_char,
        kw: *mut *mut c_char, ...) -> c_int;
    pub fn PyTuple_Pack(n: isize, ...) -> *mut PyObject;
    pub fn PyTuple_New(n: isize) -> *mut PyObject;
    pub fn PyTuple_Size(t: *mut PyObject) -> isize;
    pub fn PyTuple_GetItem(t: *mut PyObject, i: isize) -> *mut PyObject;
    pub fn PyDict_New() -> *mut PyObject;
    pub fn PyDict_Size(d: *mut PyObject) -> isize;
    pub fn PyDict_SetItemString(d: *mut PyObject, k: *const c_char, v: *mut PyObject) -> c_int;
    pub fn PyDict_Next(d: *mut PyObject, p: *mut isize, k: *mut *mut PyObject, v: *mut *mut PyObject) -> c_int;
    pub fn PyErr_Clear();
    pub fn PyErr_Occurred() -> *mut PyObject;
    pub fn PyErr_SetObject(e: *mut PyObject, v: *mut PyObject);
    pub fn PyErr_ExceptionMatches(e: *mut PyObject) -> c_int;
    pub fn PyErr_NewExceptionWithDoc(n: *const c_char, d: *const c_char, b: *mut PyObject, di: *mut PyObject)
        -> *mut PyObject;
    pub fn PyLong_FromUnsignedLong(x: c_ulong) -> *mut PyObject;
    pub fn PyLong_FromLong(x: c_long) -> *mut PyObject;
    pub fn PyLong_FromLongLong(x: c_longlong) -> *mut PyObject;
    pub fn PyLong_AsLong(o: *mut PyObject) -> c_long;
    pub fn PyLong_AsLongLong(o: *mut PyObject) -> c_longlong;
    pub fn _PyLong_FromByteArray(b: *const c_uchar, n: usize, le: c_int, signed: c_int) -> *mut PyObject;
    pub fn _PyLong_AsByteArray(o: *mut PyObject, b: *mut c_uchar, n: usize, le: c_int, signed: c_int) -> c_int;
    pub fn PyFloat_FromDouble(x: c_double) -> *mut PyObject;
    pub fn PyFloat_AsDouble(o: *mut PyObject) -> c_double;
    pub fn PyBytes_Size(o: *mut PyObject) -> isize;
    pub fn PyBytes_AsString(o: *mut PyObject) -> *mut c_char;
    pub fn PyBytes_FromStringAndSize(s: *const c_char, n: isize) -> *mut PyObject;
    fn PyCapsule_Import(n: *const c_char, nb: c_int) -> *mut c_void;
}

pub unsafe fn Py_None() -> *mut PyObject { core::ptr::addr_of_mut!(_Py_NoneStruct) }
pub unsafe fn Py_True() -> *mut PyObject { core::ptr::addr_of_mut!(_Py_TrueStruct) }
pub unsafe fn Py_False() -> *mut PyObject { core::ptr::addr_of_mut!(_Py_FalseStruct) }
pub unsafe fn Py_NotImplemented() -> *mut PyObject { core::ptr::addr_of_mut!(_Py_NotImplementedStruct) }
pub unsafe fn Py_IsNone(o: *mut PyObject) -> c_int { (o == Py_None()) as c_int }
pub unsafe fn Py_TYPE(o: *mut PyObject) -> *mut PyTypeObject { (*o).ob_type }
pub unsafe fn Py_INCREF(o: *mut PyObject) { Py_IncRef(o) }
pub unsafe fn Py_DECREF(o: *mut PyObject) { Py_DecRef(o) }
pub unsafe fn Py_CLEAR(p: *mut *mut PyObject) {
    let t = *p;
    if !t.is_null() {
        *p = core::ptr::null_mut();
        Py_DecRef(t);
    }
}
unsafe fn has(o: *mut PyObject, f: c_ulong) -> c_int { ((*Py_TYPE(o)).tp_flags & f != 0) as c_int }
pub unsafe fn PyLong_Check(o: *mut PyObject) -> c_int { has(o, TPFLAGS_LONG) }
pub unsafe fn PyUnicode_Check(o: *mut PyObject) -> c_int { has(o, TPFLAGS_UNICODE) }
pub unsafe fn PyBytes_Check(o: *mut PyObject) -> c_int { has(o, TPFLAGS_BYTES) }
unsafe fn isa(o: *mut PyObject, t: *mut PyTypeObject) -> c_int {
    (Py_TYPE(o) == t || PyType_IsSubtype(Py_TYPE(o), t) != 0) as c_int
}
pub unsafe fn PyFloat_Check(o: *mut PyObject) -> c_int { isa(o, core::ptr::addr_of_mut!(PyFloat_Type)) }
pub unsafe fn PyTuple_GET_SIZE(t: *mut PyObject) -> isize { PyTuple_Size(t) }
pub unsafe fn PyTuple_GET_ITEM(t: *mut PyObject, i: isize) -> *mut PyObject { PyTuple_GetItem(t, i) }
pub unsafe fn PyVectorcall_NARGS(n: usize) -> isize { (n & !(1usize << 63)) as isize }
pub unsafe fn PyObject_CallMethodOneArg(o: *mut PyObject, n: *mut PyObject, a: *mut PyObject) -> *mut PyObject {
    let args = [o, a];
    PyObject_VectorcallMethod(n, args.as_ptr(), 2 | (1usize << 63), core::ptr::null_mut())
}
pub unsafe fn PyObject_CallMethodNoArgs(o: *mut PyObject, n: *mut PyObject) -> *mut PyObject {
    let args = [o];
    PyObject_VectorcallMethod(n, args.as_ptr(), 1 | (1usize << 63), core::ptr::null_mut())
}

// ---- datetime.h: the fields of date, time, datetime and timedelta ----
static mut API: *mut PyDateTime_CAPI = core::ptr::null_mut();
pub unsafe fn PyDateTime_IMPORT() {
    API = PyCapsule_Import(c"datetime.datetime_CAPI".as_ptr(), 0) as *mut PyDateTime_CAPI;
}
pub unsafe fn PyDateTimeAPI() -> *mut PyDateTime_CAPI { API }
#[repr(C)]
struct PyDT { base: PyObject, hashcode: isize, hastzinfo: c_char, data: [u8; 10], fold: u8, tzinfo: *mut PyObject }
#[repr(C)]
struct PyTM { base: PyObject, hashcode: isize, hastzinfo: c_char, data: [u8; 6], fold: u8, tzinfo: *mut PyObject }
#[repr(C)]
struct PyTD { base: PyObject, hashcode: isize, days: c_int, seconds: c_int, microseconds: c_int }
unsafe fn d(o: *mut PyObject, i: usize) -> c_int { (*(o as *mut PyDT)).data[i] as c_int }
unsafe fn t(o: *mut PyObject, i: usize) -> c_int { (*(o as *mut PyTM)).data[i] as c_int }
pub unsafe fn PyDateTime_GET_YEAR(o: *mut PyObject) -> c_int { (d(o, 0) << 8) | d(o, 1) }
pub unsafe fn PyDateTime_GET_MONTH(o: *mut PyObject) -> c_int { d(o, 2) }
pub unsafe fn PyDateTime_GET_DAY(o: *mut PyObject) -> c_int { d(o, 3) }
pub unsafe fn PyDateTime_DATE_GET_HOUR(o: *mut PyObject) -> c_int { d(o, 4) }
pub unsafe fn PyDateTime_DATE_GET_MINUTE(o: *mut PyObject) -> c_int { d(o, 5) }
pub unsafe fn PyDateTime_DATE_GET_SECOND(o: *mut PyObject) -> c_int { d(o, 6) }
pub unsafe fn PyDateTime_DATE_GET_MICROSECOND(o: *mut PyObject) -> c_int { (d(o, 7) << 16) | (d(o, 8) << 8) | d(o, 9) }
pub unsafe fn PyDateTime_DATE_GET_FOLD(o: *mut PyObject) -> c_uchar { (*(o as *mut PyDT)).fold }
pub unsafe fn PyDateTime_DATE_GET_TZINFO(o: *mut PyObject) -> *mut PyObject {
    if (*(o as *mut PyDT)).hastzinfo != 0 { (*(o as *mut PyDT)).tzinfo } else { Py_None() }
}
pub unsafe fn PyDateTime_TIME_GET_HOUR(o: *mut PyObject) -> c_int { t(o, 0) }
pub unsafe fn PyDateTime_TIME_GET_MINUTE(o: *mut PyObject) -> c_int { t(o, 1) }
pub unsafe fn PyDateTime_TIME_GET_SECOND(o: *mut PyObject) -> c_int { t(o, 2) }
pub unsafe fn PyDateTime_TIME_GET_MICROSECOND(o: *mut PyObject) -> c_int { (t(o, 3) << 16) | (t(o, 4) << 8) | t(o, 5) }
pub unsafe fn PyDateTime_TIME_GET_TZINFO(o: *mut PyObject) -> *mut PyObject {
    if (*(o as *mut PyTM)).hastzinfo != 0 { (*(o as *mut PyTM)).tzinfo } else { Py_None() }
}
pub unsafe fn PyDateTime_DELTA_GET_DAYS(o: *mut PyObject) -> c_int { (*(o as *mut PyTD)).days }
pub unsafe fn PyDateTime_DELTA_GET_SECONDS(o: *mut PyObject) -> c_int { (*(o as *mut PyTD)).seconds }
pub unsafe fn PyDateTime_DELTA_GET_MICROSECONDS(o: *mut PyObject) -> c_int { (*(o as *mut PyTD)).microseconds }
pub unsafe fn PyDate_Check(o: *mut PyObject) -> c_int { isa(o, (*API).DateType) }
pub unsafe fn PyDateTime_Check(o: *mut PyObject) -> c_int { isa(o, (*API).DateTimeType) }
pub unsafe fn PyTime_Check(o: *mut PyObject) -> c_int { isa(o, (*API).TimeType) }
pub unsafe fn PyDelta_Check(o: *mut PyObject) -> c_int { isa(o, (*API).DeltaType) }
