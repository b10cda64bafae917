//! Offline stand-in for Tosca's fork of the Rust bindings of EVMC (and, with the
//! feature `borrowed`, for the fork whose messages and results are not copied).
use std::ops::{Deref, DerefMut};

#[allow(non_camel_case_types)]
pub mod ffi {
    use std::ffi::{c_char, c_void};

    pub const EVMC_ABI_VERSION: u32 = 11;

    #[derive(Clone, Copy, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
    #[repr(C)]
    pub struct evmc_bytes32 { pub bytes: [u8; 32] }
    pub type evmc_uint256be = evmc_bytes32;
    #[derive(Clone, Copy, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
    #[repr(C)]
    pub struct evmc_address { pub bytes: [u8; 20] }

    macro_rules! cenum { ($name:ident : $t:ident { $($v:ident = $n:literal),* $(,)? }) => {
        #[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
        #[repr($t)]
        pub enum $name { $($v = $n),* }
    } }
    cenum!(evmc_call_kind: u32 { EVMC_CALL = 0, EVMC_DELEGATECALL = 1, EVMC_CALLCODE = 2, EVMC_CREATE = 3, EVMC_CREATE2 = 4, EVMC_EOFCREATE = 5 });
    cenum!(evmc_flags: u32 { EVMC_STATIC = 1, EVMC_DELEGATED = 2 });
    cenum!(evmc_status_code: i32 {
        EVMC_SUCCESS = 0, EVMC_FAILURE = 1, EVMC_REVERT = 2, EVMC_OUT_OF_GAS = 3, EVMC_INVALID_INSTRUCTION = 4, EVMC_UNDEFINED_INSTRUCTION = 5,
        EVMC_STACK_OVERFLOW = 6, EVMC_STACK_UNDERFLOW = 7, EVMC_BAD_JUMP_DESTINATION = 8, EVMC_INVALID_MEMORY_ACCESS = 9,
        EVMC_CALL_DEPTH_EXCEEDED = 10, EVMC_STATIC_MODE_VIOLATION = 11, EVMC_PRECOMPILE_FAILURE = 12, EVMC_CONTRACT_VALIDATION_FAILURE = 13,
        EVMC_ARGUMENT_OUT_OF_RANGE = 14, EVMC_WASM_UNREACHABLE_INSTRUCTION = 15, EVMC_WASM_TRAP = 16, EVMC_INSUFFICIENT_BALANCE = 17,
        EVMC_INTERNAL_ERROR = -1, EVMC_REJECTED = -2, EVMC_OUT_OF_MEMORY = -3,
    });
    cenum!(evmc_step_status_code: u32 { EVMC_STEP_RUNNING = 0, EVMC_STEP_STOPPED = 1, EVMC_STEP_RETURNED = 2, EVMC_STEP_REVERTED = 3, EVMC_STEP_FAILED = 4 });
    cenum!(evmc_revision: u32 {
        EVMC_FRONTIER = 0, EVMC_HOMESTEAD = 1, EVMC_TANGERINE_WHISTLE = 2, EVMC_SPURIOUS_DRAGON = 3, EVMC_BYZANTIUM = 4, EVMC_CONSTANTINOPLE = 5,
        EVMC_PETERSBURG = 6, EVMC_ISTANBUL = 7, EVMC_BERLIN = 8, EVMC_LONDON = 9, EVMC_PARIS = 10, EVMC_SHANGHAI = 11, EVMC_CANCUN = 12,
        EVMC_PRAGUE = 13, EVMC_OSAKA = 14,
    });
    cenum!(evmc_storage_status: u32 {
        EVMC_STORAGE_ASSIGNED = 0, EVMC_STORAGE_ADDED = 1, EVMC_STORAGE_DELETED = 2, EVMC_STORAGE_MODIFIED = 3, EVMC_STORAGE_DELETED_ADDED = 4,
        EVMC_STORAGE_MODIFIED_DELETED = 5, EVMC_STORAGE_DELETED_RESTORED = 6, EVMC_STORAGE_ADDED_DELETED = 7, EVMC_STORAGE_MODIFIED_RESTORED = 8,
    });
    cenum!(evmc_access_status: u32 { EVMC_ACCESS_COLD = 0, EVMC_ACCESS_WARM = 1 });
    cenum!(evmc_capabilities: u32 { EVMC_CAPABILITY_EVM1 = 1, EVMC_CAPABILITY_EWASM = 2, EVMC_CAPABILITY_PRECOMPILES = 4 });
    cenum!(evmc_set_option_result: u32 { EVMC_SET_OPTION_SUCCESS = 0, EVMC_SET_OPTION_INVALID_NAME = 1, EVMC_SET_OPTION_INVALID_VALUE = 2 });
    pub type evmc_capabilities_flagset = u32;
    pub type evmc_host_context = c_void;

    #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
    #[repr(C)]
    pub struct evmc_message {
        pub kind: evmc_call_kind,
        pub flags: u32,
        pub depth: i32,
        pub gas: i64,
        pub recipient: evmc_address,
        pub sender: evmc_address,
        pub input_data: *const u8,
        pub input_size: usize,
        pub value: evmc_uint256be,
        pub create2_salt: evmc_bytes32,
        pub code_address: evmc_address,
        pub code: *const u8,
        pub code_size: usize,
        pub code_hash: *const evmc_bytes32,
    }
    #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
    #[repr(C)]
    pub struct evmc_tx_initcode { pub hash: evmc_bytes32, pub code: *const u8, pub code_size: usize }
    #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
    #[repr(C)]
    pub struct evmc_tx_context {
        pub tx_gas_price: evmc_uint256be,
        pub tx_origin: evmc_address,
        pub block_coinbase: evmc_address,
        pub block_number: i64,
        pub block_timestamp: i64,
        pub block_gas_limit: i64,
        pub block_prev_randao: evmc_uint256be,
        pub chain_id: evmc_uint256be,
        pub block_base_fee: evmc_uint256be,
        pub blob_base_fee: evmc_uint256be,
        pub blob_hashes: *const evmc_bytes32,
        pub blob_hashes_count: usize,
        pub initcodes: *const evmc_tx_initcode,
        pub initcodes_count: usize,
    }
    pub type evmc_release_result_fn = Option<unsafe extern "C" fn(*const evmc_result)>;
    #[derive(Clone, Copy, Debug)]
    #[repr(C)]
    pub struct evmc_result {
        pub status_code: evmc_status_code,
        pub gas_left: i64,
        pub gas_refund: i64,
        pub output_data: *const u8,
        pub output_size: usize,
        pub release: evmc_release_result_fn,
        pub create_address: evmc_address,
        pub padding: [u8; 4],
    }
    pub type evmc_release_step_result_fn = Option<unsafe extern "C" fn(*const evmc_step_result)>;
    #[derive(Clone, Copy, Debug)]
    #[repr(C)]
    pub struct evmc_step_result {
        pub step_status_code: evmc_step_status_code,
        pub status_code: evmc_status_code,
        pub revision: evmc_revision,
        pub pc: u64,
        pub gas_left: i64,
        pub gas_refund: i64,
        pub output_data: *const u8,
        pub output_size: usize,
        pub stack: *const evmc_uint256be,
        pub stack_size: usize,
        pub memory: *const u8,
        pub memory_size: usize,
        pub last_call_return_data: *const u8,
        pub last_call_return_data_size: usize,
        pub release: evmc_release_step_result_fn,
    }

    type Ctx = *mut evmc_host_context;
    type Adr = *const evmc_address;
    type B32 = *const evmc_bytes32;
    #[derive(Clone, Copy, Debug)]
    #[repr(C)]
    pub struct evmc_host_interface {
        pub account_exists: Option<unsafe extern "C" fn(Ctx, Adr) -> bool>,
        pub get_storage: Option<unsafe extern "C" fn(Ctx, Adr, B32) -> evmc_bytes32>,
        pub set_storage: Option<unsafe extern "C" fn(Ctx, Adr, B32, B32) -> evmc_storage_status>,
        pub get_balance: Option<unsafe extern "C" fn(Ctx, Adr) -> evmc_uint256be>,
        pub get_code_size: Option<unsafe extern "C" fn(Ctx, Adr) -> usize>,
        pub get_code_hash: Option<unsafe extern "C" fn(Ctx, Adr) -> evmc_bytes32>,
        pub copy_code: Option<unsafe extern "C" fn(Ctx, Adr, usize, *mut u8, usize) -> usize>,
        pub selfdestruct: Option<unsafe extern "C" fn(Ctx, Adr, Adr) -> bool>,
        pub call: Option<unsafe extern "C" fn(Ctx, *const evmc_message) -> evmc_result>,
        pub get_tx_context: Option<unsafe extern "C" fn(Ctx) -> evmc_tx_context>,
        pub get_block_hash: Option<unsafe extern "C" fn(Ctx, i64) -> evmc_bytes32>,
        pub emit_log: Option<unsafe extern "C" fn(Ctx, Adr, *const u8, usize, B32, usize)>,
        pub access_account: Option<unsafe extern "C" fn(Ctx, Adr) -> evmc_access_status>,
        pub access_storage: Option<unsafe extern "C" fn(Ctx, Adr, B32) -> evmc_access_status>,
        pub get_transient_storage: Option<unsafe extern "C" fn(Ctx, Adr, B32) -> evmc_bytes32>,
        pub set_transient_storage: Option<unsafe extern "C" fn(Ctx, Adr, B32, B32)>,
    }
    #[derive(Clone, Copy, Debug)]
    #[repr(C)]
    pub struct evmc_vm {
        pub abi_version: i32,
        pub name: *const c_char,
        pub version: *const c_char,
        pub destroy: Option<extern "C" fn(*mut evmc_vm)>,
        pub execute: Option<
            extern "C" fn(*mut evmc_vm, *const evmc_host_interface, *mut evmc_host_context, evmc_revision, *const evmc_message, *const u8, usize) -> evmc_result,
        >,
        pub get_capabilities: Option<extern "C" fn(*mut evmc_vm) -> evmc_capabilities_flagset>,
        pub set_option: Option<extern "C" fn(*mut evmc_vm, *const c_char, *const c_char) -> evmc_set_option_result>,
    }
    #[derive(Clone, Copy, Debug)]
    #[repr(C)]
    pub struct evmc_vm_steppable {
        pub vm: *mut evmc_vm,
        #[allow(clippy::type_complexity)]
        pub step_n: Option<
            extern "C" fn(
                *mut evmc_vm_steppable, *const evmc_host_interface, *mut evmc_host_context, evmc_revision, *const evmc_message, *const u8, usize,
                evmc_step_status_code, u64, i64, *mut evmc_bytes32, usize, *mut u8, usize, *mut u8, usize, i32,
            ) -> evmc_step_result,
        >,
        pub destroy: Option<extern "C" fn(*mut evmc_vm_steppable)>,
    }
}

pub type Address = ffi::evmc_address;
pub type Bytes32 = ffi::evmc_bytes32;
pub type Uint256 = ffi::evmc_uint256be;
pub type MessageKind = ffi::evmc_call_kind;
pub type MessageFlags = ffi::evmc_flags;
pub type StatusCode = ffi::evmc_status_code;
pub type StepStatusCode = ffi::evmc_step_status_code;
pub type StorageStatus = ffi::evmc_storage_status;
pub type AccessStatus = ffi::evmc_access_status;
pub type Revision = ffi::evmc_revision;
pub type ExecutionTxContext = ffi::evmc_tx_context;

#[derive(Debug)]
pub enum SetOptionError { InvalidKey, InvalidValue }

#[cfg(not(feature = "borrowed"))]
pub type Output = Vec<u8>;
#[cfg(feature = "borrowed")]
pub type Output = Box<[u8]>;

fn bytes(p: *const u8, n: usize) -> Option<Output> {
    if p.is_null() {
        assert_eq!(n, 0);
        None
    } else if n == 0 {
        None
    } else {
        Some(Output::from(unsafe { std::slice::from_raw_parts(p, n) }))
    }
}
fn leak<T>(v: Option<Box<[T]>>) -> (*const T, usize) {
    match v {
        Some(b) if !b.is_empty() => {
            let n = b.len();
            (Box::into_raw(b) as *const T, n)
        }
        _ => (std::ptr::null(), 0),
    }
}
unsafe fn unleak<T>(p: *const T, n: usize) {
    if !p.is_null() {
        drop(unsafe { Box::from_raw(std::ptr::slice_from_raw_parts_mut(p as *mut T, n)) });
    }
}

#[derive(Debug)]
pub struct ExecutionResult {
    status_code: StatusCode,
    gas_left: i64,
    gas_refund: i64,
    output: Option<Output>,
    create_address: Option<Address>,
}
impl ExecutionResult {
    #[cfg(not(feature = "borrowed"))]
    pub fn new(status_code: StatusCode, gas_left: i64, gas_refund: i64, output: Option<&[u8]>) -> Self {
        Self { status_code, gas_left, gas_refund, output: output.map(|s| s.to_vec()), create_address: None }
    }
    #[cfg(feature = "borrowed")]
    pub fn new(status_code: StatusCode, gas_left: i64, gas_refund: i64, output: Option<Box<[u8]>>) -> Self {
        Self { status_code, gas_left, gas_refund, output, create_address: None }
    }
    pub fn failure() -> Self { Self::new(StatusCode::EVMC_FAILURE, 0, 0, None) }
    pub fn status_code(&self) -> StatusCode { self.status_code }
    pub fn gas_left(&self) -> i64 { self.gas_left }
    pub fn gas_refund(&self) -> i64 { self.gas_refund }
    #[cfg(not(feature = "borrowed"))]
    pub fn output(&self) -> Option<&Vec<u8>> { self.output.as_ref() }
    #[cfg(feature = "borrowed")]
    pub fn output(&self) -> Option<&[u8]> { self.output.as_deref() }
    pub fn create_address(&self) -> Option<&Address> { self.create_address.as_ref() }
}
impl From<ffi::evmc_result> for ExecutionResult {
    fn from(r: ffi::evmc_result) -> Self {
        let ret = Self {
            status_code: r.status_code,
            gas_left: r.gas_left,
            gas_refund: r.gas_refund,
            output: bytes(r.output_data, r.output_size),
            create_address: Some(r.create_address),
        };
        if let Some(release) = r.release { unsafe { release(&r) } }
        ret
    }
}
unsafe extern "C" fn release_result(r: *const ffi::evmc_result) { unsafe { unleak((*r).output_data, (*r).output_size) } }
impl From<ExecutionResult> for ffi::evmc_result {
    fn from(v: ExecutionResult) -> Self {
        let (output_data, output_size) = leak(v.output.map(|o| Box::<[u8]>::from(o)));
        Self {
            status_code: v.status_code,
            gas_left: v.gas_left,
            gas_refund: v.gas_refund,
            output_data,
            output_size,
            release: Some(release_result),
            create_address: v.create_address.unwrap_or_default(),
            padding: [0; 4],
        }
    }
}

#[derive(Debug)]
pub struct StepResult {
    pub step_status_code: StepStatusCode,
    pub status_code: StatusCode,
    pub revision: Revision,
    pub pc: u64,
    pub gas_left: i64,
    pub gas_refund: i64,
    pub output: Option<Output>,
    pub stack: Vec<Uint256>,
    pub memory: Vec<u8>,
    pub last_call_return_data: Option<Vec<u8>>,
}
impl StepResult {
    #[allow(clippy::too_many_arguments)]
    pub fn new(
        step_status_code: StepStatusCode, status_code: StatusCode, revision: Revision, pc: u64, gas_left: i64, gas_refund: i64, output: Option<Output>,
        stack: Vec<Uint256>, memory: Vec<u8>, last_call_return_data: Option<Vec<u8>>,
    ) -> Self {
        Self { step_status_code, status_code, revision, pc, gas_left, gas_refund, output, stack, memory, last_call_return_data }
    }
}
unsafe extern "C" fn release_step_result(r: *const ffi::evmc_step_result) {
    unsafe {
        unleak((*r).output_data, (*r).output_size);
        unleak((*r).stack, (*r).stack_size);
        unleak((*r).memory, (*r).memory_size);
        unleak((*r).last_call_return_data, (*r).last_call_return_data_size);
    }
}
impl From<StepResult> for ffi::evmc_step_result {
    fn from(v: StepResult) -> Self {
        let (output_data, output_size) = leak(v.output.map(|o| Box::<[u8]>::from(o)));
        let (stack, stack_size) = leak(Some(v.stack.into_boxed_slice()));
        let (memory, memory_size) = leak(Some(v.memory.into_boxed_slice()));
        let (last_call_return_data, last_call_return_data_size) = leak(v.last_call_return_data.map(Vec::into_boxed_slice));
        Self {
            step_status_code: v.step_status_code,
            status_code: v.status_code,
            revision: v.revision,
            pc: v.pc,
            gas_left: v.gas_left,
            gas_refund: v.gas_refund,
            output_data,
            output_size,
            stack,
            stack_size,
            memory,
            memory_size,
            last_call_return_data,
            last_call_return_data_size,
            release: Some(release_step_result),
        }
    }
}

macro_rules! accessors { () => {
    pub fn kind(&self) -> MessageKind { self.kind }
    pub fn flags(&self) -> u32 { self.flags }
    pub fn depth(&self) -> i32 { self.depth }
    pub fn gas(&self) -> i64 { self.gas }
    pub fn recipient(&self) -> &Address { &self.recipient }
    pub fn sender(&self) -> &Address { &self.sender }
    pub fn value(&self) -> &Uint256 { &self.value }
    pub fn create2_salt(&self) -> &Bytes32 { &self.create2_salt }
    pub fn code_address(&self) -> &Address { &self.code_address }
    pub fn code_hash(&self) -> Option<&Uint256> { self.code_hash.as_ref() }
} }

#[cfg(not(feature = "borrowed"))]
mod message {
    use super::*;
    #[derive(Debug)]
    pub struct ExecutionMessage {
        kind: MessageKind,
        flags: u32,
        depth: i32,
        gas: i64,
        recipient: Address,
        sender: Address,
        input: Option<Vec<u8>>,
        value: Uint256,
        create2_salt: Bytes32,
        code_address: Address,
        code: Option<Vec<u8>>,
        code_hash: Option<Uint256>,
    }
    impl ExecutionMessage {
        #[allow(clippy::too_many_arguments)]
        pub fn new(
            kind: MessageKind, flags: u32, depth: i32, gas: i64, recipient: Address, sender: Address, input: Option<&[u8]>, value: Uint256,
            create2_salt: Bytes32, code_address: Address, code: Option<&[u8]>, code_hash: Option<Uint256>,
        ) -> Self {
            Self {
                kind, flags, depth, gas, recipient, sender, input: input.map(<[u8]>::to_vec), value, create2_salt, code_address,
                code: code.map(<[u8]>::to_vec), code_hash,
            }
        }
        accessors!();
        pub fn input(&self) -> Option<&Vec<u8>> { self.input.as_ref() }
        pub fn code(&self) -> Option<&Vec<u8>> { self.code.as_ref() }
    }
    impl From<&ffi::evmc_message> for ExecutionMessage {
        fn from(m: &ffi::evmc_message) -> Self {
            Self {
                kind: m.kind, flags: m.flags, depth: m.depth, gas: m.gas, recipient: m.recipient, sender: m.sender,
                input: bytes(m.input_data, m.input_size), value: m.value, create2_salt: m.create2_salt, code_address: m.code_address,
                code: bytes(m.code, m.code_size), code_hash: if m.code_hash.is_null() { None } else { Some(unsafe { *m.code_hash }) },
            }
        }
    }
}
#[cfg(feature = "borrowed")]
mod message {
    use super::*;
    #[derive(Debug)]
    pub struct ExecutionMessage<'a> {
        kind: MessageKind,
        flags: u32,
        depth: i32,
        gas: i64,
        recipient: Address,
        sender: Address,
        input: Option<&'a [u8]>,
        value: Uint256,
        create2_salt: Bytes32,
        code_address: Address,
        code: Option<&'a [u8]>,
        code_hash: Option<Uint256>,
    }
    impl<'a> ExecutionMessage<'a> {
        #[allow(clippy::too_many_arguments)]
        pub fn new(
            kind: MessageKind, flags: u32, depth: i32, gas: i64, recipient: Address, sender: Address, input: Option<&'a [u8]>, value: Uint256,
            create2_salt: Bytes32, code_address: Address, code: Option<&'a [u8]>, code_hash: Option<Uint256>,
        ) -> Self {
            Self { kind, flags, depth, gas, recipient, sender, input, value, create2_salt, code_address, code, code_hash }
        }
        accessors!();
        pub fn input(&self) -> Option<&'a [u8]> { self.input }
        pub fn code(&self) -> Option<&'a [u8]> { self.code }
    }
    impl From<&ffi::evmc_message> for ExecutionMessage<'_> {
        fn from(m: &ffi::evmc_message) -> Self {
            let slice = |p: *const u8, n: usize| if p.is_null() || n == 0 { None } else { Some(unsafe { std::slice::from_raw_parts(p, n) }) };
            Self {
                kind: m.kind, flags: m.flags, depth: m.depth, gas: m.gas, recipient: m.recipient, sender: m.sender,
                input: slice(m.input_data, m.input_size), value: m.value, create2_salt: m.create2_salt, code_address: m.code_address,
                code: slice(m.code, m.code_size), code_hash: if m.code_hash.is_null() { None } else { Some(unsafe { *m.code_hash }) },
            }
        }
    }
}
pub use message::ExecutionMessage;

pub struct ExecutionContext<'a> {
    host: &'a ffi::evmc_host_interface,
    context: *mut ffi::evmc_host_context,
    tx_context: Option<ExecutionTxContext>,
}
impl<'a> ExecutionContext<'a> {
    pub fn new(host: &'a ffi::evmc_host_interface, context: *mut ffi::evmc_host_context) -> Self { Self { host, context, tx_context: None } }
    pub fn get_tx_context(&mut self) -> &ExecutionTxContext {
        let (host, context) = (self.host, self.context);
        self.tx_context.get_or_insert_with(|| unsafe { (host.get_tx_context.unwrap())(context) })
    }
    pub fn account_exists(&self, a: &Address) -> bool { unsafe { (self.host.account_exists.unwrap())(self.context, a) } }
    pub fn get_storage(&self, a: &Address, k: &Bytes32) -> Bytes32 { unsafe { (self.host.get_storage.unwrap())(self.context, a, k) } }
    pub fn set_storage(&mut self, a: &Address, k: &Bytes32, v: &Bytes32) -> StorageStatus { unsafe { (self.host.set_storage.unwrap())(self.context, a, k, v) } }
    pub fn get_balance(&self, a: &Address) -> Uint256 { unsafe { (self.host.get_balance.unwrap())(self.context, a) } }
    pub fn get_code_size(&self, a: &Address) -> usize { unsafe { (self.host.get_code_size.unwrap())(self.context, a) } }
    pub fn get_code_hash(&self, a: &Address) -> Bytes32 { unsafe { (self.host.get_code_hash.unwrap())(self.context, a) } }
    pub fn copy_code(&self, a: &Address, offset: usize, buffer: &mut [u8]) -> usize {
        unsafe { (self.host.copy_code.unwrap())(self.context, a, offset, buffer.as_mut_ptr(), buffer.len()) }
    }
    pub fn selfdestruct(&mut self, a: &Address, b: &Address) -> bool { unsafe { (self.host.selfdestruct.unwrap())(self.context, a, b) } }
    pub fn call(&mut self, m: &ExecutionMessage) -> ExecutionResult {
        let hash = m.code_hash().copied();
        let msg = ffi::evmc_message {
            kind: m.kind(),
            flags: m.flags(),
            depth: m.depth(),
            gas: m.gas(),
            recipient: *m.recipient(),
            sender: *m.sender(),
            input_data: m.input().map_or(std::ptr::null(), |x| x.as_ptr()),
            input_size: m.input().map_or(0, |x| x.len()),
            value: *m.value(),
            create2_salt: *m.create2_salt(),
            code_address: *m.code_address(),
            code: m.code().map_or(std::ptr::null(), |x| x.as_ptr()),
            code_size: m.code().map_or(0, |x| x.len()),
            code_hash: hash.as_ref().map_or(std::ptr::null(), |h| h as *const _),
        };
        unsafe { (self.host.call.unwrap())(self.context, &msg) }.into()
    }
    pub fn get_block_hash(&self, n: i64) -> Bytes32 { unsafe { (self.host.get_block_hash.unwrap())(self.context, n) } }
    pub fn emit_log(&mut self, a: &Address, data: &[u8], topics: &[Bytes32]) {
        unsafe { (self.host.emit_log.unwrap())(self.context, a, data.as_ptr(), data.len(), topics.as_ptr(), topics.len()) }
    }
    pub fn access_account(&mut self, a: &Address) -> AccessStatus { unsafe { (self.host.access_account.unwrap())(self.context, a) } }
    pub fn access_storage(&mut self, a: &Address, k: &Bytes32) -> AccessStatus { unsafe { (self.host.access_storage.unwrap())(self.context, a, k) } }
    pub fn get_transient_storage(&self, a: &Address, k: &Bytes32) -> Bytes32 { unsafe { (self.host.get_transient_storage.unwrap())(self.context, a, k) } }
    pub fn set_transient_storage(&mut self, a: &Address, k: &Bytes32, v: &Bytes32) {
        unsafe { (self.host.set_transient_storage.unwrap())(self.context, a, k, v) }
    }
}

pub trait EvmcVm {
    fn init() -> Self;
    fn set_option(&mut self, _key: &str, _value: &str) -> Result<(), SetOptionError> { Ok(()) }
    fn execute<'a>(
        &self, revision: Revision, code: &'a [u8], message: &'a ExecutionMessage, context: Option<&'a mut ExecutionContext<'a>>,
    ) -> ExecutionResult;
}
pub trait SteppableEvmcVm {
    #[allow(clippy::too_many_arguments)]
    fn step_n<'a>(
        &self, revision: Revision, code: &'a [u8], message: &'a ExecutionMessage, context: Option<&'a mut ExecutionContext<'a>>,
        step_status: StepStatusCode, pc: u64, gas_refund: i64, stack: &'a mut [Uint256], memory: &'a mut [u8],
        last_call_return_data: &'a mut [u8], steps: i32,
    ) -> StepResult;
}

macro_rules! container { ($name:ident, $inst:ident, $bound:path) => {
    #[repr(C)]
    pub struct $name<T: $bound> { instance: ffi::$inst, vm: T }
    impl<T: $bound> $name<T> {
        pub unsafe fn into_ffi_pointer(boxed: Box<Self>) -> *mut ffi::$inst { Box::into_raw(boxed) as *mut ffi::$inst }
        pub unsafe fn from_ffi_pointer(p: *mut ffi::$inst) -> Box<Self> {
            assert!(!p.is_null(), "from_ffi_pointer received NULL");
            unsafe { Box::from_raw(p as *mut Self) }
        }
        pub fn instance(&self) -> &ffi::$inst { &self.instance }
    }
    impl<T: $bound> Deref for $name<T> { type Target = T; fn deref(&self) -> &T { &self.vm } }
    impl<T: $bound> DerefMut for $name<T> { fn deref_mut(&mut self) -> &mut T { &mut self.vm } }
} }
container!(EvmcContainer, evmc_vm, EvmcVm);
container!(SteppableEvmcContainer, evmc_vm_steppable, SteppableEvmcVm);
impl<T: EvmcVm> EvmcContainer<T> {
    pub fn new(instance: ffi::evmc_vm) -> Box<Self> { Box::new(Self { instance, vm: T::init() }) }
}
impl<T: SteppableEvmcVm + EvmcVm> SteppableEvmcContainer<T> {
    pub fn new(instance: ffi::evmc_vm_steppable) -> Box<Self> { Box::new(Self { instance, vm: T::init() }) }
}
