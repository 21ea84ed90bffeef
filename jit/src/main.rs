//! Runs programs as machine code.
//!
//!     tv-jit FILE
//!
//! The file holds a program per line. Memory comes from an allocator that puts
//! larger blocks right before a page that may not be touched, takes them back as
//! soon as they are freed, and checks that blocks are given back as what they were.
use std::alloc::{GlobalAlloc, Layout, System};
use std::io::Write;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};

#[path = "../../miri/src/decode.rs"]
mod decode;

struct Guarded;

const PAGE: usize = 4096;
const MAGIC: u64 = 0x51ab_77c3_0f0e_d00d;

static GUARDED: AtomicU64 = AtomicU64::new(0);

/// In front of every block.
#[repr(C)]
struct Block {
    magic: u64,
    size: usize,
    align: usize,
    base: usize,
    length: usize,
}

const HEAD: usize = std::mem::size_of::<Block>();

fn die(what: &str) -> ! {
    unsafe {
        libc::write(2, what.as_ptr().cast(), what.len());
        libc::write(2, b"\n".as_ptr().cast(), 1);
        libc::abort();
    }
}

unsafe fn head(ptr: *mut u8) -> *mut Block {
    ptr.sub(HEAD).cast()
}

unsafe impl GlobalAlloc for Guarded {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        let align = layout.align().max(8);
        let size = layout.size();
        let (ptr, base, length) = if size >= 256 && align <= 16 {
            GUARDED.fetch_add(1, SeqCst);
            let length = (size + HEAD + 16 + PAGE - 1) / PAGE * PAGE + PAGE;
            let base = libc::mmap(std::ptr::null_mut(), length, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0);
            if base == libc::MAP_FAILED {
                return std::ptr::null_mut();
            }
            let base = base as *mut u8;
            libc::mprotect(base.add(length - PAGE).cast(), PAGE, libc::PROT_NONE);
            let end = base.add(length - PAGE) as usize;
            (((end - size) / align * align) as *mut u8, base as usize, length)
        } else {
            let extra = HEAD.max(align);
            let extra = (extra + align - 1) / align * align;
            let base = System.alloc(Layout::from_size_align_unchecked(size + extra, align));
            if base.is_null() {
                return base;
            }
            (base.add(extra), base as usize, 0)
        };
        head(ptr).write_unaligned(Block { magic: MAGIC, size, align: layout.align(), base, length });
        ptr
    }

    unsafe fn dealloc(&self, ptr: *mut u8, layout: Layout) {
        let b = head(ptr).read_unaligned();
        if b.magic != MAGIC {
            die("bad memory: a block that was never given out is freed, or something wrote in front of it");
        }
        if b.size != layout.size() || b.align != layout.align() {
            die("bad memory: a block is freed or resized as one of another size");
        }
        if b.length > 0 {
            libc::munmap(b.base as *mut _, b.length);
        } else {
            let align = b.align.max(8);
            let extra = ptr as usize - b.base;
            head(ptr).write_unaligned(Block { magic: 0, ..b });
            System.dealloc(b.base as *mut u8, Layout::from_size_align_unchecked(b.size + extra, align));
        }
    }
}

#[global_allocator]
static ALLOC: Guarded = Guarded;

fn say(s: &str) {
    let mut out = std::io::stdout().lock();
    out.write_all(s.as_bytes()).unwrap();
    out.write_all(b"\n").unwrap();
    out.flush().unwrap();
}

static BEGUN: AtomicU64 = AtomicU64::new(0);

fn main() {
    let file = std::env::args().nth(1).unwrap();
    let input = std::fs::read_to_string(&file).unwrap();
    std::thread::spawn(|| {
        let mut last = 0;
        loop {
            std::thread::sleep(std::time::Duration::from_secs(30));
            let now = BEGUN.load(SeqCst);
            if now == last {
                die("does not end");
            }
            last = now;
        }
    });
    for (nth, line) in input.lines().enumerate() {
        let mut words = decode::Words(line.split_ascii_whitespace());
        let (program, exprs) = decode::program(&mut words);
        say(&format!("begin {}", nth));
        BEGUN.fetch_add(1, SeqCst);
        let result = ticc_eval::jit::eval(&program, &exprs);
        let text = match &result {
            Ok(values) => format!("{:?}", values),
            Err(trap) => format!("trap {}", trap.message),
        };
        say(&format!("done {} {} {}", nth, GUARDED.swap(0, SeqCst), text.replace('\n', "\\n")));
    }
    say("end");
}
