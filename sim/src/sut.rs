//! Loading the code under test and owning its memory: pristine image, restore, page protection.
use std::ffi::CString;

#[derive(Clone)]
pub struct Op {
    pub name: String,
    pub f: u64,
    pub nf: u8,
    pub fw: u8,
    pub has_int: bool,
    pub ret: u8,
    pub out: u8,
    /// the cost is linear in the integer operand: 1 first kind, 2 second kind
    pub bessel: u8,
}

#[repr(C)]
struct OpDesc {
    name: *const u8,
    name_len: usize,
    f: usize,
    nf: u8,
    fw: u8,
    has_int: u8,
    ret: u8,
    out: u8,
}

/// What the code under test is told about the outside (see sut/src/world.rs).
#[repr(C)]
pub struct World {
    pub real: u64,
    pub seed: u64,
    pub ticks: u64,
    pub tid: u64,
}
pub static mut WORLD: World = World { real: 0, seed: 0, ticks: 0, tid: 0 };

pub struct Module {
    pub cfg: String,
    pub base: u64,
    pub text: (u64, u64),
    /// no memory fences in the code: stores may be delayed
    pub tso: bool,
    /// writable, not relro, page rounded
    pub wr: (u64, u64),
    pub image: Vec<u8>,
    pub tls: (u64, usize),
    pub tls_image: Vec<u8>,
    pub alloc_state: *mut usize,
    pub errno: *mut i32,
    pub ops: Vec<Op>,
    pub handle: *mut libc::c_void,
    /// offsets of instructions that only some processors have, or that read the outside world
    pub odd: Vec<u32>,
}

fn page_up(x: u64) -> u64 {
    (x + 4095) & !4095
}
fn page_down(x: u64) -> u64 {
    x & !4095
}

struct Find {
    addr: u64,
    base: u64,
    segs: Vec<(u32, u32, u64, u64)>,
    tls: u64,
}
unsafe extern "C" fn cb(info: *mut libc::dl_phdr_info, _sz: usize, data: *mut libc::c_void) -> i32 {
    let f = &mut *(data as *mut Find);
    let i = &*info;
    let ph = std::slice::from_raw_parts(i.dlpi_phdr, i.dlpi_phnum as usize);
    let has = ph.iter().any(|p| p.p_type == libc::PT_LOAD && f.addr >= i.dlpi_addr + p.p_vaddr && f.addr < i.dlpi_addr + p.p_vaddr + p.p_memsz);
    if has {
        f.base = i.dlpi_addr;
        f.segs = ph.iter().map(|p| (p.p_type, p.p_flags, i.dlpi_addr + p.p_vaddr, p.p_memsz)).collect();
        f.tls = i.dlpi_tls_data as u64;
        return 1;
    }
    0
}

impl Module {
    /// The offsets listed in a file beside the module.
    pub fn load_odd(&mut self, path: &str) -> bool {
        let Ok(t) = std::fs::read_to_string(path) else { return false };
        self.odd = t.lines().filter_map(|l| u32::from_str_radix(l.trim(), 16).ok()).collect();
        true
    }
    pub fn load(cfg: &str, path: &str) -> Result<Module, String> {
        unsafe {
            let c = CString::new(path).unwrap();
            let h = libc::dlopen(c.as_ptr(), libc::RTLD_NOW | libc::RTLD_LOCAL);
            if h.is_null() {
                return Err(format!("dlopen {path}: {:?}", std::ffi::CStr::from_ptr(libc::dlerror())));
            }
            let sym = |n: &str| -> Result<*mut libc::c_void, String> {
                let c = CString::new(n).unwrap();
                let p = libc::dlsym(h, c.as_ptr());
                if p.is_null() { Err(format!("missing symbol {n}")) } else { Ok(p) }
            };
            let init: extern "C" fn(*mut World) -> usize = std::mem::transmute(sym("sut_init")?);
            let tls_anchor = init(&raw mut WORLD) as u64;
            let errno: extern "C" fn() -> *mut i32 = std::mem::transmute(sym("sut_errno")?);
            let errno = errno();
            let astate: extern "C" fn() -> *mut usize = std::mem::transmute(sym("sut_alloc_state")?);
            let opsf: unsafe extern "C" fn(*mut OpDesc, usize) -> usize = std::mem::transmute(sym("sut_ops")?);
            let mut buf: Vec<std::mem::MaybeUninit<OpDesc>> = (0..1024).map(|_| std::mem::MaybeUninit::uninit()).collect();
            let n = opsf(buf.as_mut_ptr() as *mut OpDesc, 1024);
            let ops: Vec<Op> = (0..n)
                .map(|i| {
                    let d = &*(buf[i].as_ptr());
                    let name = String::from_utf8_lossy(std::slice::from_raw_parts(d.name, d.name_len)).into_owned();
                    let bessel = match crate::args::stem(&name).as_str() {
                        "jn" => 1,
                        "yn" => 2,
                        _ => 0,
                    };
                    Op {
                        name,
                        bessel,
                        f: d.f as u64,
                        nf: d.nf,
                        fw: d.fw,
                        has_int: d.has_int != 0,
                        ret: d.ret,
                        out: d.out,
                    }
                })
                .collect();
            let mut f = Find { addr: sym("sut_init")? as u64, base: 0, segs: vec![], tls: 0 };
            libc::dl_iterate_phdr(Some(cb), &mut f as *mut _ as *mut libc::c_void);
            let mut text = (u64::MAX, 0u64);
            let mut wr = (u64::MAX, 0u64);
            let mut relro_end = 0;
            let mut tls_len = 0;
            for &(t, fl, a, sz) in &f.segs {
                match t {
                    libc::PT_LOAD if fl & libc::PF_X != 0 => text = (text.0.min(a), text.1.max(a + sz)),
                    libc::PT_LOAD if fl & libc::PF_W != 0 => wr = (wr.0.min(a), wr.1.max(a + sz)),
                    libc::PT_GNU_RELRO => relro_end = relro_end.max(a + sz),
                    libc::PT_TLS => tls_len = sz as usize,
                    _ => {}
                }
            }
            if text.0 >= text.1 || wr.0 >= wr.1 {
                return Err("no text or no data segment".into());
            }
            let wr = (page_up(relro_end.max(page_down(wr.0))), page_up(wr.1));
            if wr.0 >= wr.1 {
                return Err("no writable non-relro pages".into());
            }
            let tls = if tls_len > 0 && f.tls != 0 && tls_anchor >= f.tls && tls_anchor < f.tls + tls_len as u64 {
                (f.tls, tls_len)
            } else {
                (0, 0)
            };
            let t0 = page_down(text.0);
            if libc::mprotect(t0 as *mut _, (page_up(text.1) - t0) as usize, libc::PROT_READ | libc::PROT_WRITE | libc::PROT_EXEC) != 0 {
                return Err("mprotect text failed".into());
            }
            let code = std::slice::from_raw_parts(text.0 as *const u8, (text.1 - text.0) as usize);
            let tso = !code.windows(5).any(|b| b[..3] == [0x0f, 0xae, 0xf0] || (b[..2] == [0xf0, 0x83] && b[3] == 0x24) || (b[..3] == [0xf0, 0x48, 0x83] && b[4] == 0x24));
            let image = std::slice::from_raw_parts(wr.0 as *const u8, (wr.1 - wr.0) as usize).to_vec();
            let tls_image = if tls.1 > 0 { std::slice::from_raw_parts(tls.0 as *const u8, tls.1).to_vec() } else { vec![] };
            Ok(Module { cfg: cfg.into(), base: f.base, tso, text, wr, image, tls, tls_image, alloc_state: astate(), errno, ops, handle: h, odd: vec![] })
        }
    }
    pub fn off(&self, pc: u64) -> u64 {
        pc.wrapping_sub(self.base)
    }
    pub fn in_text(&self, pc: u64) -> bool {
        pc >= self.text.0 && pc < self.text.1
    }
    pub fn in_wr(&self, a: u64) -> bool {
        a >= self.wr.0 && a < self.wr.1
    }
    pub unsafe fn protect(&self, none: bool) {
        let p = if none { libc::PROT_NONE } else { libc::PROT_READ | libc::PROT_WRITE };
        if libc::mprotect(self.wr.0 as *mut _, (self.wr.1 - self.wr.0) as usize, p) != 0 {
            crate::harness_error("mprotect of the data segment failed");
        }
    }
    /// Memory must be unprotected.
    pub unsafe fn restore(&self) {
        std::ptr::copy_nonoverlapping(self.image.as_ptr(), self.wr.0 as *mut u8, self.image.len());
    }
    pub unsafe fn restore_tls(&self) {
        if self.tls.1 > 0 {
            std::ptr::copy_nonoverlapping(self.tls_image.as_ptr(), self.tls.0 as *mut u8, self.tls.1);
        }
    }
    pub unsafe fn tls_dirty(&self) -> bool {
        self.tls.1 > 0 && std::slice::from_raw_parts(self.tls.0 as *const u8, self.tls.1) != &self.tls_image[..]
    }
}
