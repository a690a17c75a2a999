//! A small Solana runtime: executes transactions of the real program (linked natively) against
//! a `World` of accounts, with the runtime rules that matter to the program: privileges,
//! ownership, lamport conservation, CPI into System and the real spl-token processor,
//! atomic rollback on error or panic.
use solana_program::{
    account_info::AccountInfo,
    clock::Clock,
    entrypoint::ProgramResult,
    instruction::Instruction,
    program_error::ProgramError,
    program_stubs::{set_syscall_stubs, SyscallStubs},
    pubkey::Pubkey,
    rent::Rent,
    system_instruction::SystemInstruction,
    system_program, sysvar,
};
use std::{
    cell::{Cell, RefCell, UnsafeCell},
    collections::BTreeMap,
    panic::{catch_unwind, AssertUnwindSafe},
    rc::Rc,
    sync::{
        atomic::{AtomicU64, AtomicUsize, Ordering::Relaxed},
        Arc, Mutex,
    },
    time::Instant,
};

/// 16-byte aligned byte buffer, with what the runtime puts around account data: its length right
/// before it and room to grow behind it, which `AccountInfo::realloc` relies on.
pub struct AVec {
    v: Vec<u128>,
    len: usize,
}
/// how much an account may grow within an instruction
const GROW: usize = 10 * 1024;
impl AVec {
    fn room(len: usize) -> Self {
        let n = (len + 15) / 16;
        let mut v: Vec<u128> = Vec::with_capacity(1 + n + GROW / 16);
        v.push((len as u128) << 64);
        AVec { v, len }
    }
    pub fn zeroed(len: usize) -> Self {
        let mut a = Self::room(len);
        a.v.resize(1 + (len + 15) / 16 + GROW / 16, 0);
        a
    }
    pub fn from(b: &[u8]) -> Self {
        let n = (b.len() + 15) / 16;
        let mut a = AVec { v: Vec::with_capacity(1 + n), len: b.len() };
        a.v.push((b.len() as u128) << 64);
        a.fill_from(b);
        a
    }
    /// a copy to work on
    fn working(b: &[u8], grows: bool) -> Self {
        let mut a = Self::room(b.len());
        a.fill_from(b);
        if grows {
            let n = a.v.len();
            a.v.resize(n + GROW / 16, 0);
        }
        a
    }
    fn fill_from(&mut self, b: &[u8]) {
        let n = (b.len() + 15) / 16;
        unsafe {
            let p = self.v.as_mut_ptr().add(1);
            if b.len() % 16 != 0 {
                *p.add(n - 1) = 0;
            }
            std::ptr::copy_nonoverlapping(b.as_ptr(), p as *mut u8, b.len());
            self.v.set_len(1 + n);
        }
    }
    pub fn bytes(&self) -> &[u8] {
        unsafe { std::slice::from_raw_parts(self.v.as_ptr().add(1) as *const u8, self.len) }
    }
    pub fn bytes_mut(&mut self) -> &mut [u8] {
        unsafe { std::slice::from_raw_parts_mut(self.v.as_mut_ptr().add(1) as *mut u8, self.len) }
    }
}

#[inline(always)]
fn fold(a: u64, b: u64) -> u64 {
    let r = (a as u128).wrapping_mul(b as u128);
    (r as u64) ^ ((r >> 64) as u64)
}
pub fn hash128(b: &[u8], seed: u64) -> u128 {
    const K: [u64; 4] = [0x9E3779B97F4A7C15, 0xC2B2AE3D27D4EB4F, 0x165667B19E3779F9, 0xD6E8FEB86659FD93];
    let mut h0 = seed ^ K[0];
    let mut h1 = seed ^ K[1] ^ (b.len() as u64).wrapping_mul(K[3]);
    let mut c = b.chunks_exact(16);
    for x in &mut c {
        let a = u64::from_le_bytes(x[..8].try_into().unwrap());
        let d = u64::from_le_bytes(x[8..].try_into().unwrap());
        h0 = fold(h0 ^ a, K[2] ^ d).wrapping_add(h1.rotate_left(23));
        h1 = fold(h1 ^ d, K[3] ^ a).wrapping_add(K[0]);
    }
    let r = c.remainder();
    if !r.is_empty() {
        let mut t = [0u8; 16];
        t[..r.len()].copy_from_slice(r);
        let a = u64::from_le_bytes(t[..8].try_into().unwrap());
        let d = u64::from_le_bytes(t[8..].try_into().unwrap());
        h0 = fold(h0 ^ a, K[2] ^ d).wrapping_add(h1.rotate_left(23));
        h1 = fold(h1 ^ d, K[3] ^ a).wrapping_add(K[0]);
    }
    let a = fold(h0 ^ K[1], h1 ^ K[2]);
    let d = fold(h1 ^ K[0], h0 ^ K[3]);
    ((a as u128) << 64) | d as u128
}

pub struct Buf {
    pub d: AVec,
    pub hash: u128,
}
impl Buf {
    pub fn new(d: AVec) -> Arc<Buf> {
        let hash = hash128(d.bytes(), 7);
        Arc::new(Buf { d, hash })
    }
}

#[derive(Clone)]
pub struct Acct {
    pub lamports: u64,
    pub owner: Pubkey,
    pub exec: bool,
    pub data: Arc<Buf>,
}
impl Acct {
    pub fn new(lamports: u64, owner: Pubkey, data: &[u8]) -> Acct {
        Acct { lamports, owner, exec: false, data: Buf::new(AVec::from(data)) }
    }
    pub fn same(&self, o: &Acct) -> bool {
        self.lamports == o.lamports
            && self.owner == o.owner
            && self.exec == o.exec
            && (Arc::ptr_eq(&self.data, &o.data)
                || (self.data.hash == o.data.hash && self.data.d.bytes() == o.data.d.bytes()))
    }
    pub fn bytes(&self) -> &[u8] {
        self.data.d.bytes()
    }
}

#[derive(Clone)]
pub struct World {
    pub accts: BTreeMap<Pubkey, Acct>,
    pub now: i64,
}

pub fn rent() -> Rent {
    Rent::default()
}

impl World {
    pub fn new(now: i64) -> World {
        let mut w = World { accts: BTreeMap::new(), now };
        for p in [crate::env::PID, spl_token::ID, system_program::ID] {
            let mut a = Acct::new(1, Pubkey::default(), &[]);
            a.exec = true;
            w.accts.insert(p, a);
        }
        // bincode of Rent: u64, f64, u8
        let r = rent();
        let mut d = vec![];
        d.extend_from_slice(&r.lamports_per_byte_year.to_le_bytes());
        d.extend_from_slice(&r.exemption_threshold.to_le_bytes());
        d.push(r.burn_percent);
        w.accts.insert(sysvar::rent::ID, Acct::new(1_000_000, sysvar::ID, &d));
        w
    }
    pub fn get(&self, k: &Pubkey) -> Option<&Acct> {
        self.accts.get(k)
    }
    pub fn hash(&self) -> u128 {
        let mut v: Vec<u8> = Vec::with_capacity(self.accts.len() * 96 + 8);
        v.extend_from_slice(&self.now.to_le_bytes());
        for (k, a) in &self.accts {
            v.extend_from_slice(k.as_ref());
            v.extend_from_slice(&a.lamports.to_le_bytes());
            v.extend_from_slice(a.owner.as_ref());
            v.extend_from_slice(&a.data.hash.to_le_bytes());
        }
        hash128(&v, 11)
    }
    /// anybody may send lamports to any account
    pub fn give(&mut self, k: &Pubkey, n: u64) {
        self.accts.entry(*k).or_insert_with(|| Acct::new(0, system_program::ID, &[])).lamports += n;
    }
    /// the token account holds this much (as after a transfer)
    pub fn set_tokens(&mut self, k: &Pubkey, n: u64) {
        let a = &self.accts[k];
        let mut d = a.bytes().to_vec();
        d[64..72].copy_from_slice(&n.to_le_bytes());
        let mut b = Acct::new(a.lamports, a.owner, &d);
        b.exec = a.exec;
        self.accts.insert(*k, b);
    }
    /// keys of accounts that differ
    pub fn diff(&self, o: &World) -> Vec<Pubkey> {
        let mut r = vec![];
        for (k, a) in &self.accts {
            match o.accts.get(k) {
                Some(b) if a.same(b) => {}
                _ => r.push(*k),
            }
        }
        for k in o.accts.keys() {
            if !self.accts.contains_key(k) {
                r.push(*k)
            }
        }
        r
    }
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum TxErr {
    Program(ProgramError),
    Panic(String),
    Runtime(&'static str),
}

pub type TxOk = (World, Option<Vec<u8>>);

#[repr(C)]
struct Work {
    _pad: u32,
    /// where `AccountInfo` looks for it: right before the key
    original_data_len: u32,
    key: Pubkey,
    lamports: u64,
    owner: Pubkey,
    exec: bool,
    data: AVec,
    signer: bool,
    writable: bool,
}

enum SnapData {
    Shared(Arc<Buf>),
    Own(Vec<u8>),
}
impl SnapData {
    fn bytes(&self) -> &[u8] {
        match self {
            SnapData::Shared(b) => b.d.bytes(),
            SnapData::Own(v) => v,
        }
    }
}
struct Snap {
    lamports: u64,
    owner: Pubkey,
    exec: bool,
    data: SnapData,
}

struct Ctx {
    now: i64,
    stack: Vec<Pubkey>,
    /// snapshot of each transaction account at the last verification point
    snaps: BTreeMap<Pubkey, Snap>,
    /// privileges of the running instruction, per stack frame
    privs: Vec<BTreeMap<Pubkey, (bool, bool)>>,
    arena: Vec<Box<AVec>>,
    ret: Option<(Pubkey, Vec<u8>)>,
    runtime_err: Option<&'static str>,
}

/// a recorded cross-program invocation: instruction, keys of the accounts handed over, seeds
pub type Captured = (Instruction, Vec<Pubkey>, Vec<Vec<Vec<u8>>>);

/// the invocations `f` makes
pub fn capture(f: impl FnOnce() -> ProgramResult) -> (ProgramResult, Vec<Captured>) {
    CAPTURE.with(|c| *c.borrow_mut() = Some(vec![]));
    let r = f();
    (r, CAPTURE.with(|c| c.borrow_mut().take().unwrap()))
}

thread_local! {
    /// run the program through its entrypoint, with accounts in the runtime's serialized form
    static ABI: Cell<bool> = const { Cell::new(false) };
    /// inside the entrypoint, where a panic cannot be unwound
    static IN_ENTRY: Cell<bool> = const { Cell::new(false) };
    static SLOT: usize = NEXT_SLOT.fetch_add(1, Relaxed) % SLOTS;
    static CTX: RefCell<Option<Ctx>> = const { RefCell::new(None) };
    /// when set, cross-program invocations outside a transaction are recorded instead of run
    static CAPTURE: RefCell<Option<Vec<Captured>>> = const { RefCell::new(None) };
}

fn with<R>(f: impl FnOnce(&mut Ctx) -> R) -> R {
    CTX.with(|c| f(c.borrow_mut().as_mut().expect("no ctx")))
}

fn rt_err(e: &'static str) -> ProgramError {
    with(|c| {
        if c.runtime_err.is_none() {
            c.runtime_err = Some(e)
        }
    });
    ProgramError::Custom(0xdead)
}

/// The runtime's per-instruction account rules.
fn verify(program: &Pubkey, privs: &BTreeMap<Pubkey, (bool, bool)>, infos: &[AccountInfo]) -> Result<(), &'static str> {
    with(|c| {
        for i in infos {
            let Some((_, writable)) = privs.get(i.key) else { continue };
            let Some(s) = c.snaps.get_mut(i.key) else { return Err("unknown account") };
            let lam = **i.lamports.try_borrow().map_err(|_| "lamports borrowed")?;
            let data_ref = match i.data.try_borrow() {
                Ok(d) => d,
                // still mutably borrowed by the caller during a CPI that does not involve it
                Err(_) => continue,
            };
            let data: &[u8] = &data_ref;
            if *i.owner != s.owner {
                if !*writable || s.exec || s.owner != *program || data.iter().any(|b| *b != 0) {
                    return Err("ModifiedProgramId");
                }
            }
            if lam != s.lamports {
                if lam < s.lamports && s.owner != *program {
                    return Err("ExternalAccountLamportSpend");
                }
                if !*writable {
                    return Err("ReadonlyLamportChange");
                }
                if s.exec {
                    return Err("ExecutableLamportChange");
                }
            }
            if data != s.data.bytes() {
                if !*writable {
                    return Err("ReadonlyDataModified");
                }
                if s.owner != *program || s.exec {
                    return Err("ExternalAccountDataModified");
                }
                s.data = SnapData::Own(data.to_vec());
            }
            s.lamports = lam;
            s.owner = *i.owner;
        }
        Ok(())
    })
}

fn process_system(infos: &[AccountInfo], data: &[u8]) -> ProgramResult {
    let ix: SystemInstruction = decode_system(data).ok_or(ProgramError::InvalidInstructionData)?;
    match ix {
        SystemInstruction::CreateAccount { lamports, space, owner } => {
            if infos.len() < 2 {
                return Err(ProgramError::NotEnoughAccountKeys);
            }
            let (from, to) = (&infos[0], &infos[1]);
            if !from.is_signer || !to.is_signer {
                return Err(ProgramError::MissingRequiredSignature);
            }
            if to.lamports() > 0 || to.data_len() > 0 || *to.owner != system_program::ID {
                return Err(ProgramError::Custom(0)); // AccountAlreadyInUse
            }
            transfer(from, to, lamports)?;
            resize(to, space)?;
            set_owner(to, &owner);
            Ok(())
        }
        SystemInstruction::Transfer { lamports } => {
            if infos.len() < 2 {
                return Err(ProgramError::NotEnoughAccountKeys);
            }
            transfer(&infos[0], &infos[1], lamports)
        }
        SystemInstruction::Allocate { space } => {
            let to = infos.first().ok_or(ProgramError::NotEnoughAccountKeys)?;
            if !to.is_signer {
                return Err(ProgramError::MissingRequiredSignature);
            }
            if to.data_len() > 0 || *to.owner != system_program::ID {
                return Err(ProgramError::Custom(0)); // AccountAlreadyInUse
            }
            resize(to, space)
        }
        SystemInstruction::Assign { owner } => {
            let to = infos.first().ok_or(ProgramError::NotEnoughAccountKeys)?;
            if *to.owner == owner {
                return Ok(());
            }
            if !to.is_signer {
                return Err(ProgramError::MissingRequiredSignature);
            }
            // only the owner may, which the verification after the call does not see
            if *to.owner != system_program::ID {
                return Err(ProgramError::IllegalOwner);
            }
            set_owner(to, &owner);
            Ok(())
        }
        _ => Err(ProgramError::InvalidInstructionData),
    }
}

/// new zeroed data for an account without data
fn resize(to: &AccountInfo, space: u64) -> ProgramResult {
    if space > 10 * 1024 * 1024 || (with(|c| c.stack.len()) > 1 && space > 10 * 1024) {
        return Err(ProgramError::InvalidRealloc);
    }
    if ABI.get() {
        return to.realloc(space as usize, true);
    }
    let mut b = Box::new(AVec::zeroed(space as usize));
    let p = b.bytes_mut() as *mut [u8];
    with(|c| c.arena.push(b));
    unsafe {
        *to.data.borrow_mut() = std::mem::transmute::<&mut [u8], &mut [u8]>(&mut *p);
    }
    Ok(())
}

fn set_owner(to: &AccountInfo, owner: &Pubkey) {
    if ABI.get() {
        to.assign(owner);
        return;
    }
    unsafe {
        let p = std::hint::black_box(to.owner as *const Pubkey as usize);
        std::ptr::write_volatile(p as *mut Pubkey, *owner);
    }
}

fn transfer(from: &AccountInfo, to: &AccountInfo, lamports: u64) -> ProgramResult {
    if !from.is_signer {
        return Err(ProgramError::MissingRequiredSignature);
    }
    if from.data_len() > 0 {
        return Err(ProgramError::InvalidArgument);
    }
    if from.lamports() < lamports {
        return Err(ProgramError::Custom(1));
    }
    **from.lamports.borrow_mut() -= lamports;
    **to.lamports.borrow_mut() += lamports;
    Ok(())
}

fn decode_system(d: &[u8]) -> Option<SystemInstruction> {
    let tag = u32::from_le_bytes(d.get(..4)?.try_into().ok()?);
    let u = |o: usize| -> Option<u64> { Some(u64::from_le_bytes(d.get(o..o + 8)?.try_into().ok()?)) };
    match tag {
        0 => Some(SystemInstruction::CreateAccount {
            lamports: u(4)?,
            space: u(12)?,
            owner: Pubkey::new_from_array(d.get(20..52)?.try_into().ok()?),
        }),
        1 => Some(SystemInstruction::Assign { owner: Pubkey::new_from_array(d.get(4..36)?.try_into().ok()?) }),
        2 => Some(SystemInstruction::Transfer { lamports: u(4)? }),
        8 => Some(SystemInstruction::Allocate { space: u(4)? }),
        _ => None,
    }
}

/// runs `program` on infos; the accounts must already be verified for the caller
fn dispatch(program: &Pubkey, infos: &[AccountInfo], data: &[u8]) -> ProgramResult {
    if *program == crate::env::PID {
        // the program asks for &'a [AccountInfo<'a>]; everything outlives this call
        let i: &'static [AccountInfo<'static>] = unsafe { std::mem::transmute(infos) };
        if ABI.get() {
            return run_entrypoint(program, i, data);
        }
        mplx_rewards::instructions::process_instruction(program, i, data)
    } else if *program == spl_token::ID {
        spl_token::processor::Processor::process(program, infos, data)
    } else if *program == system_program::ID {
        process_system(infos, data)
    } else {
        Err(rt_err("unknown program"))
    }
}

extern "C" {
    /// the program's entrypoint
    fn entrypoint(input: *mut u8) -> u64;
}

/// Calls the program's entrypoint with the accounts serialized as the runtime does, and copies the
/// results back.
fn run_entrypoint(program: &Pubkey, infos: &'static [AccountInfo<'static>], data: &[u8]) -> ProgramResult {
    let mut b: Vec<u8> = vec![];
    b.extend_from_slice(&(infos.len() as u64).to_le_bytes());
    let mut at: Vec<Option<usize>> = vec![];
    for (n, i) in infos.iter().enumerate() {
        if let Some(d) = infos[..n].iter().position(|j| j.key == i.key) {
            b.extend_from_slice(&[d as u8, 0, 0, 0, 0, 0, 0, 0]);
            at.push(None);
            continue;
        }
        at.push(Some(b.len()));
        b.extend_from_slice(&[0xff, i.is_signer as u8, i.is_writable as u8, i.executable as u8, 0, 0, 0, 0]);
        b.extend_from_slice(i.key.as_ref());
        b.extend_from_slice(i.owner.as_ref());
        b.extend_from_slice(&i.lamports().to_le_bytes());
        b.extend_from_slice(&(i.data_len() as u64).to_le_bytes());
        b.extend_from_slice(&i.data.borrow());
        b.resize(b.len() + GROW, 0);
        b.resize((b.len() + 7) & !7, 0);
        b.extend_from_slice(&i.rent_epoch.to_le_bytes());
    }
    b.extend_from_slice(&(data.len() as u64).to_le_bytes());
    b.extend_from_slice(data);
    b.extend_from_slice(program.as_ref());
    let mut a = AVec::from(&b);
    IN_ENTRY.set(true);
    let r = unsafe { entrypoint(a.bytes_mut().as_mut_ptr()) };
    IN_ENTRY.set(false);
    let b = a.bytes();
    let u = |o: usize| u64::from_le_bytes(b[o..o + 8].try_into().unwrap());
    for (i, o) in infos.iter().zip(&at) {
        let Some(o) = *o else { continue };
        let len = u(o + 80) as usize;
        **i.lamports.borrow_mut() = u(o + 72);
        let new = &b[o + 88..o + 88 + len];
        if len == i.data_len() {
            i.data.borrow_mut().copy_from_slice(new);
        } else {
            let mut x = Box::new(AVec::from(new));
            let p = x.bytes_mut() as *mut [u8];
            with(|c| c.arena.push(x));
            unsafe { *i.data.borrow_mut() = &mut *p };
        }
        i.assign(&Pubkey::new_from_array(b[o + 40..o + 72].try_into().unwrap()));
    }
    if r == 0 {
        Ok(())
    } else {
        Err(ProgramError::from(r))
    }
}

fn lamport_sum(infos: &[AccountInfo]) -> u128 {
    let mut seen: Vec<&Pubkey> = vec![];
    let mut s = 0u128;
    for i in infos {
        if !seen.contains(&i.key) {
            seen.push(i.key);
            s += **i.lamports.borrow() as u128;
        }
    }
    s
}

struct Stubs;
impl SyscallStubs for Stubs {
    fn sol_log(&self, _m: &str) {}
    fn sol_log_data(&self, _f: &[&[u8]]) {}
    fn sol_get_clock_sysvar(&self, var: *mut u8) -> u64 {
        let now = with(|c| c.now);
        unsafe {
            *(var as *mut Clock) = Clock { unix_timestamp: now, slot: 1, epoch_start_timestamp: 0, epoch: 0, leader_schedule_epoch: 0 };
        }
        0
    }
    fn sol_get_rent_sysvar(&self, var: *mut u8) -> u64 {
        unsafe { *(var as *mut Rent) = rent() };
        0
    }
    unsafe fn sol_memcmp(&self, s1: *const u8, s2: *const u8, n: usize, result: *mut i32) {
        let a = std::slice::from_raw_parts(s1, n);
        let b = std::slice::from_raw_parts(s2, n);
        *result = a.cmp(b) as i32;
    }
    fn sol_set_return_data(&self, d: &[u8]) {
        with(|c| {
            let p = *c.stack.last().unwrap();
            c.ret = if d.is_empty() { None } else { Some((p, d.to_vec())) }
        })
    }
    fn sol_get_return_data(&self) -> Option<(Pubkey, Vec<u8>)> {
        with(|c| c.ret.clone())
    }
    fn sol_get_stack_height(&self) -> u64 {
        with(|c| c.stack.len() as u64)
    }
    fn sol_invoke_signed(&self, ix: &Instruction, account_infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> ProgramResult {
        let captured = CAPTURE.with(|c| match c.borrow_mut().as_mut() {
            Some(v) => {
                v.push((
                    ix.clone(),
                    account_infos.iter().map(|i| *i.key).collect(),
                    seeds.iter().map(|s| s.iter().map(|b| b.to_vec()).collect()).collect(),
                ));
                true
            }
            None => false,
        });
        if captured {
            return Ok(());
        }
        let (caller, privs) = with(|c| (*c.stack.last().unwrap(), c.privs.last().unwrap().clone()));
        if with(|c| c.stack.len()) >= 5 {
            return Err(rt_err("CallDepth"));
        }
        if !privs.contains_key(&ix.program_id) {
            return Err(rt_err("MissingAccount: invoked program"));
        }
        if ix.program_id == crate::env::PID {
            return Err(rt_err("ReentrancyNotAllowed"));
        }
        let mut pdas = vec![];
        for s in seeds {
            match Pubkey::create_program_address(s, &caller) {
                Ok(p) => pdas.push(p),
                Err(_) => return Err(rt_err("BadSeeds")),
            }
        }
        // union of privileges per key
        let mut np: BTreeMap<Pubkey, (bool, bool)> = BTreeMap::new();
        for m in &ix.accounts {
            let e = np.entry(m.pubkey).or_insert((false, false));
            e.0 |= m.is_signer;
            e.1 |= m.is_writable;
        }
        for (k, (s, w)) in &np {
            let Some((cs, cw)) = privs.get(k) else { return Err(rt_err("MissingAccount")) };
            if (*s && !*cs && !pdas.contains(k)) || (*w && !*cw) {
                return Err(rt_err("PrivilegeEscalation"));
            }
        }
        let mut infos: Vec<AccountInfo> = vec![];
        for m in &ix.accounts {
            let Some(i) = account_infos.iter().find(|i| *i.key == m.pubkey) else {
                return Err(rt_err("MissingAccount"));
            };
            let mut i = i.clone();
            let (s, w) = np[&m.pubkey];
            i.is_signer = s;
            i.is_writable = w;
            infos.push(i);
        }
        // the caller's changes so far
        if let Err(e) = verify(&caller, &privs, account_infos) {
            return Err(rt_err(e));
        }
        let before = lamport_sum(&infos);
        with(|c| {
            c.stack.push(ix.program_id);
            c.privs.push(np.clone());
            c.ret = None;
        });
        let r = dispatch(&ix.program_id, &infos, &ix.data);
        if r.is_ok() {
            if lamport_sum(&infos) != before {
                return Err(rt_err("UnbalancedInstruction"));
            }
            if let Err(e) = verify(&ix.program_id, &np, &infos) {
                return Err(rt_err(e));
            }
        }
        with(|c| {
            c.stack.pop();
            c.privs.pop();
        });
        if let Err(e) = &r {
            // a failed CPI aborts the transaction, whatever the caller does with the error
            let _ = e;
            with(|c| {
                if c.runtime_err.is_none() {
                    c.runtime_err = Some("cpi failed")
                }
            });
        }
        r
    }
}

pub fn init() {
    set_syscall_stubs(Box::new(Stubs));
    std::panic::set_hook(Box::new(|i| {
        if IN_ENTRY.get() {
            fatal(&format!("the entrypoint panics where the instruction itself does not: {i}"));
        }
        if CTX.with(|c| c.try_borrow().map(|c| c.is_none()).unwrap_or(true)) {
            eprintln!("harness panic: {i}");
        }
    }));
}

/// What to do about a program that hangs or aborts: say so and end the run.
pub static FATAL: std::sync::OnceLock<fn(&str)> = std::sync::OnceLock::new();
fn fatal(m: &str) -> ! {
    if let Some(f) = FATAL.get() {
        f(m);
    }
    println!("{m}");
    std::process::exit(1);
}

const SLOTS: usize = 256;
static NEXT_SLOT: AtomicUsize = AtomicUsize::new(0);
#[allow(clippy::declare_interior_mutable_const)]
const NO: AtomicU64 = AtomicU64::new(0);
/// when the transaction running in each thread began (ms since `T0`, 0: none), and its instructions
static BEGUN: [AtomicU64; SLOTS] = [NO; SLOTS];
#[allow(clippy::declare_interior_mutable_const)]
const EMPTY: Mutex<Vec<Instruction>> = Mutex::new(Vec::new());
static IXS: [Mutex<Vec<Instruction>>; SLOTS] = [EMPTY; SLOTS];
static T0: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();

/// Ends the run when a single transaction has been running for `secs` seconds (usually microseconds).
pub fn watch(secs: u64) {
    let t0 = *T0.get_or_init(Instant::now);
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_secs(1));
        let now = t0.elapsed().as_millis() as u64;
        for i in 0..SLOTS {
            let b = BEGUN[i].load(Relaxed);
            if b != 0 && now > b + secs * 1000 {
                let ixs = IXS[i].lock().map(|g| format!("{:?}", g.as_slice())).unwrap_or_default();
                fatal(&format!("a transaction does not end: {ixs}"));
            }
        }
    });
}

/// Executes one transaction through the program's entrypoint.
pub fn exec_entry(w: &World, ixs: &[Instruction]) -> Result<TxOk, TxErr> {
    ABI.set(true);
    let r = exec(w, ixs);
    ABI.set(false);
    r
}

/// Executes one transaction. On error nothing changes.
pub fn exec(w: &World, ixs: &[Instruction]) -> Result<TxOk, TxErr> {
    let Some(t0) = T0.get() else { return exec_(w, ixs) };
    let slot = SLOT.with(|s| *s);
    if let Ok(mut g) = IXS[slot].lock() {
        g.clear();
        g.extend_from_slice(ixs);
    }
    BEGUN[slot].store(t0.elapsed().as_millis() as u64 + 1, Relaxed);
    let r = exec_(w, ixs);
    BEGUN[slot].store(0, Relaxed);
    r
}

fn exec_(w: &World, ixs: &[Instruction]) -> Result<TxOk, TxErr> {
    // transaction-level privileges
    let mut tx: BTreeMap<Pubkey, (bool, bool)> = BTreeMap::new();
    for ix in ixs {
        for m in &ix.accounts {
            let e = tx.entry(m.pubkey).or_insert((false, false));
            e.0 |= m.is_signer;
            e.1 |= m.is_writable;
        }
        tx.entry(ix.program_id).or_insert((false, false));
    }
    let works: Vec<Box<UnsafeCell<Work>>> = tx
        .iter()
        .map(|(k, (s, wr))| {
            let (lamports, owner, exec, data) = match w.accts.get(k) {
                Some(a) => (a.lamports, a.owner, a.exec, AVec::working(a.data.d.bytes(), a.owner == crate::env::PID)),
                None => (0, system_program::ID, false, AVec::zeroed(0)),
            };
            Box::new(UnsafeCell::new(Work { _pad: 0, original_data_len: data.bytes().len() as u32, key: *k, lamports, owner, exec, data, signer: *s, writable: *wr && !exec }))
        })
        .collect();
    let snaps = tx
        .keys()
        .map(|k| {
            let s = match w.accts.get(k) {
                Some(a) => Snap { lamports: a.lamports, owner: a.owner, exec: a.exec, data: SnapData::Shared(a.data.clone()) },
                None => Snap { lamports: 0, owner: system_program::ID, exec: false, data: SnapData::Own(vec![]) },
            };
            (*k, s)
        })
        .collect();
    CTX.with(|c| {
        *c.borrow_mut() = Some(Ctx {
            now: w.now,
            stack: vec![],
            snaps,
            privs: vec![],
            arena: vec![],
            ret: None,
            runtime_err: None,
        })
    });
    // one AccountInfo per account, shared by all its uses in the transaction
    let base: BTreeMap<Pubkey, AccountInfo<'static>> = works
        .iter()
        .map(|b| unsafe {
            let p = &mut *b.get();
            let ow: &'static Pubkey = &*(&p.owner as *const Pubkey);
            let ke: &'static Pubkey = &*(&p.key as *const Pubkey);
            let la: &'static mut u64 = &mut *(&mut p.lamports as *mut u64);
            let da: &'static mut [u8] = &mut *(p.data.bytes_mut() as *mut [u8]);
            (
                *ke,
                AccountInfo {
                    key: ke,
                    lamports: Rc::new(RefCell::new(la)),
                    data: Rc::new(RefCell::new(da)),
                    owner: ow,
                    rent_epoch: 0,
                    is_signer: p.signer,
                    is_writable: p.writable,
                    executable: p.exec,
                },
            )
        })
        .collect();
    let mut res: Result<(), TxErr> = Ok(());
    for ix in ixs {
        let mut privs: BTreeMap<Pubkey, (bool, bool)> = BTreeMap::new();
        for m in &ix.accounts {
            let i = &base[&m.pubkey];
            privs.insert(m.pubkey, (i.is_signer, i.is_writable));
        }
        let infos: Vec<AccountInfo<'static>> = ix.accounts.iter().map(|m| base[&m.pubkey].clone()).collect();
        // a program may only invoke programs it was given as accounts (legacy loader rule: any tx account)
        for p in [spl_token::ID, system_program::ID] {
            if tx.contains_key(&p) {
                privs.entry(p).or_insert((false, false));
            }
        }
        with(|c| {
            c.stack.push(ix.program_id);
            c.privs.push(privs.clone());
            c.ret = None;
        });
        let before = lamport_sum(&infos);
        let r = catch_unwind(AssertUnwindSafe(|| dispatch(&ix.program_id, &infos, &ix.data)));
        let rte = with(|c| c.runtime_err);
        res = match (r, rte) {
            (Err(p), _) => Err(TxErr::Panic(
                p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default(),
            )),
            (Ok(Err(e)), _) if e != ProgramError::Custom(0xdead) => Err(TxErr::Program(e)),
            (Ok(_), Some(e)) => Err(TxErr::Runtime(e)),
            (Ok(Err(e)), None) => Err(TxErr::Program(e)),
            (Ok(Ok(())), None) => {
                if lamport_sum(&infos) != before {
                    Err(TxErr::Runtime("UnbalancedInstruction"))
                } else {
                    verify(&ix.program_id, &privs, &infos).map_err(TxErr::Runtime)
                }
            }
        };
        if res.is_err() {
            break;
        }
        with(|c| {
            c.stack.pop();
            c.privs.pop();
        });
    }
    let mut out: Result<TxOk, TxErr> = match res {
        Err(e) => Err(e),
        Ok(()) => {
            let mut nw = w.clone();
            let mut bad = None;
            for (k, i) in &base {
                let lam = **i.lamports.borrow();
                let d = i.data.borrow();
                let owner = *i.owner;
                let old = w.accts.get(k);
                let changed = match old {
                    Some(a) => a.lamports != lam || a.owner != owner || a.bytes() != &d[..],
                    None => lam != 0 || !d.is_empty(),
                };
                if !changed {
                    continue;
                }
                if lam == 0 {
                    nw.accts.remove(k);
                    continue;
                }
                let r = rent();
                let exempt = r.is_exempt(lam, d.len());
                let was_exempt = old.map(|a| r.is_exempt(a.lamports, a.bytes().len())).unwrap_or(true);
                if !exempt && was_exempt {
                    bad = Some("InsufficientFundsForRent");
                }
                let data = match old {
                    Some(a) if a.bytes() == &d[..] => a.data.clone(),
                    _ => Buf::new(AVec::from(&d)),
                };
                nw.accts.insert(*k, Acct { lamports: lam, owner, exec: i.executable, data });
            }
            match bad {
                Some(b) => Err(TxErr::Runtime(b)),
                None => Ok((nw, with(|c| c.ret.take().map(|r| r.1)))),
            }
        }
    };
    drop(base);
    CTX.with(|c| *c.borrow_mut() = None);
    if let Err(TxErr::Panic(p)) = &mut out {
        p.truncate(160);
    }
    drop(works);
    out
}
