//! MZ and PE definitions: field placement, checksums, the stub, constants.

use harness::*;
use tmp::msdosmz;
use tmp::pecoff::{self, *};

/// Independent little-endian reader.
fn le(d: &[u8], at: usize, n: usize) -> u64 { (0..n).rev().fold(0, |a, k| (a << 8) | d[at + k] as u64) }

/// Values as published in the PE format specification.
#[rustfmt::skip]
macro_rules! published { ($(($n:ident, $v:expr),)*) => { &[$((stringify!($n), $n as u64, $v)),*] }; }
const PUBLISHED: &[(&str, u64, u64)] = published![
    (PE_MAGIC_OH32, 0x10b),
    (PE_MAGIC_OH32P, 0x20b),
    (PE_OFFSET, 0x3c),
    (CHARACTERISTIC_RELOCS_STRIPPED, 0x1),
    (CHARACTERISTIC_EXECUTABLE_IMAGE, 0x2),
    (CHARACTERISTIC_LINE_NUMS_STRIPPED, 0x4),
    (CHARACTERISTIC_LOCAL_SYMS_STRIPPED, 0x8),
    (CHARACTERISTIC_AGGRESSIVE_WS_TRIM, 0x10),
    (CHARACTERISTIC_LARGE_ADDRESS_AWARE, 0x20),
    (CHARACTERISTIC_BYTES_REVERSED_LO, 0x80),
    (CHARACTERISTIC_32BIT_MACHINE, 0x100),
    (CHARACTERISTIC_DEBUG_STRIPPED, 0x200),
    (CHARACTERISTIC_REMOVABLE_RUN_FROM_SWAP, 0x400),
    (CHARACTERISTIC_NET_RUN_FROM_SWAP, 0x800),
    (CHARACTERISTIC_SYSTEM, 0x1000),
    (CHARACTERISTIC_DLL, 0x2000),
    (CHARACTERISTIC_UP_SYSTEM_ONLY, 0x4000),
    (CHARACTERISTIC_BYTES_REVERSED_HI, 0x8000),
    (DATA_DIRECTORY_EXPORT_TABLE, 0x0),
    (DATA_DIRECTORY_IMPORT_TABLE, 0x1),
    (DATA_DIRECTORY_RESOURCE_TABLE, 0x2),
    (DATA_DIRECTORY_EXCEPTION_TABLE, 0x3),
    (DATA_DIRECTORY_CERTIFICATE_TABLE, 0x4),
    (DATA_DIRECTORY_BASE_RELOCATION_TABLE, 0x5),
    (DATA_DIRECTORY_DEBUG, 0x6),
    (DATA_DIRECTORY_ARCHITECTURE, 0x7),
    (DATA_DIRECTORY_GLOBAL_PTR, 0x8),
    (DATA_DIRECTORY_TLS_TABLE, 0x9),
    (DATA_DIRECTORY_LOAD_CONFIG_TABLE, 0xa),
    (DATA_DIRECTORY_BOUND_IMPORT, 0xb),
    (DATA_DIRECTORY_IAT, 0xc),
    (DATA_DIRECTORY_DELAY_IMPORT_DESCRIPTOR, 0xd),
    (DATA_DIRECTORY_CLR_RUNTIME_HEADER, 0xe),
    (DLL_CHARACTERISTIC_HIGH_ENTROPY_VA, 0x20),
    (DLL_CHARACTERISTIC_DYNAMIC_BASE, 0x40),
    (DLL_CHARACTERISTIC_FORCE_INTEGRITY, 0x80),
    (DLL_CHARACTERISTIC_NX_COMPAT, 0x100),
    (DLL_CHARACTERISTIC_NO_ISOLATION, 0x200),
    (DLL_CHARACTERISTIC_NO_SEH, 0x400),
    (DLL_CHARACTERISTIC_NO_BIND, 0x800),
    (DLL_CHARACTERISTIC_APPCONTAINER, 0x1000),
    (DLL_CHARACTERISTIC_WDM_DRIVER, 0x2000),
    (DLL_CHARACTERISTIC_GUARD_CF, 0x4000),
    (DLL_CHARACTERISTIC_TERMINAL_SERVER_AWARE, 0x8000),
    (MACHINE_UNKNOWN, 0x0),
    (MACHINE_AM33, 0x1d3),
    (MACHINE_AMD64, 0x8664),
    (MACHINE_ARM, 0x1c0),
    (MACHINE_ARM64, 0xaa64),
    (MACHINE_ARMNT, 0x1c4),
    (MACHINE_EBC, 0xebc),
    (MACHINE_I386, 0x14c),
    (MACHINE_IA64, 0x200),
    (MACHINE_LOONGARCH32, 0x6232),
    (MACHINE_LOONGARCH64, 0x6264),
    (MACHINE_M32R, 0x9041),
    (MACHINE_MIPS16, 0x266),
    (MACHINE_MIPSFPU, 0x366),
    (MACHINE_MIPSFPU16, 0x466),
    (MACHINE_POWERPC, 0x1f0),
    (MACHINE_POWERPCFP, 0x1f1),
    (MACHINE_R4000, 0x166),
    (MACHINE_RISCV32, 0x5032),
    (MACHINE_RISCV64, 0x5064),
    (MACHINE_RISCV128, 0x5128),
    (MACHINE_SH3, 0x1a2),
    (MACHINE_SH3DSP, 0x1a3),
    (MACHINE_SH4, 0x1a6),
    (MACHINE_SH5, 0x1a8),
    (MACHINE_THUMB, 0x1c2),
    (MACHINE_WCEMIPSV2, 0x169),
    (SECTION_CHARACTERISTIC_TYPE_NO_PAD, 0x8),
    (SECTION_CHARACTERISTIC_CNT_CODE, 0x20),
    (SECTION_CHARACTERISTIC_CNT_INITIALIZED_DATA, 0x40),
    (SECTION_CHARACTERISTIC_CNT_UNINITIALIZED_DATA, 0x80),
    (SECTION_CHARACTERISTIC_LNK_OTHER, 0x100),
    (SECTION_CHARACTERISTIC_LNK_INFO, 0x200),
    (SECTION_CHARACTERISTIC_LNK_REMOVE, 0x800),
    (SECTION_CHARACTERISTIC_LNK_COMDAT, 0x1000),
    (SECTION_CHARACTERISTIC_GPREL, 0x8000),
    (SECTION_CHARACTERISTIC_MEM_PURGEABLE, 0x20000),
    (SECTION_CHARACTERISTIC_MEM_16BIT, 0x20000),
    (SECTION_CHARACTERISTIC_MEM_LOCKED, 0x40000),
    (SECTION_CHARACTERISTIC_MEM_PRELOAD, 0x80000),
    (SECTION_CHARACTERISTIC_ALIGN_1BYTES, 0x100000),
    (SECTION_CHARACTERISTIC_ALIGN_2BYTES, 0x200000),
    (SECTION_CHARACTERISTIC_ALIGN_4BYTES, 0x300000),
    (SECTION_CHARACTERISTIC_ALIGN_8BYTES, 0x400000),
    (SECTION_CHARACTERISTIC_ALIGN_16BYTES, 0x500000),
    (SECTION_CHARACTERISTIC_ALIGN_32BYTES, 0x600000),
    (SECTION_CHARACTERISTIC_ALIGN_64BYTES, 0x700000),
    (SECTION_CHARACTERISTIC_ALIGN_128BYTES, 0x800000),
    (SECTION_CHARACTERISTIC_ALIGN_256BYTES, 0x900000),
    (SECTION_CHARACTERISTIC_ALIGN_512BYTES, 0xa00000),
    (SECTION_CHARACTERISTIC_ALIGN_1024BYTES, 0xb00000),
    (SECTION_CHARACTERISTIC_ALIGN_2048BYTES, 0xc00000),
    (SECTION_CHARACTERISTIC_ALIGN_4096BYTES, 0xd00000),
    (SECTION_CHARACTERISTIC_ALIGN_8192BYTES, 0xe00000),
    (SECTION_CHARACTERISTIC_LNK_NRELOC_OVFL, 0x1000000),
    (SECTION_CHARACTERISTIC_MEM_DISCARDABLE, 0x2000000),
    (SECTION_CHARACTERISTIC_MEM_NOT_CACHED, 0x4000000),
    (SECTION_CHARACTERISTIC_MEM_NOT_PAGED, 0x8000000),
    (SECTION_CHARACTERISTIC_MEM_SHARED, 0x10000000),
    (SECTION_CHARACTERISTIC_MEM_EXECUTE, 0x20000000),
    (SECTION_CHARACTERISTIC_MEM_READ, 0x40000000),
    (SECTION_CHARACTERISTIC_MEM_WRITE, 0x80000000),
    (SUBSYSTEM_UNKNOWN, 0x0),
    (SUBSYSTEM_NATIVE, 0x1),
    (SUBSYSTEM_WINDOWS_GUI, 0x2),
    (SUBSYSTEM_WINDOWS_CUI, 0x3),
    (SUBSYSTEM_OS2_CUI, 0x5),
    (SUBSYSTEM_POSIX_CUI, 0x7),
    (SUBSYSTEM_NATIVE_WINDOWS, 0x8),
    (SUBSYSTEM_WINDOWS_CE_GUI, 0x9),
    (SUBSYSTEM_EFI_APPLICATION, 0xa),
    (SUBSYSTEM_EFI_BOOT_SERVICE_DRIVER, 0xb),
    (SUBSYSTEM_EFI_RUNTIME_DRIVER, 0xc),
    (SUBSYSTEM_EFI_ROM, 0xd),
    (SUBSYSTEM_XBOX, 0xe),
    (SUBSYSTEM_WINDOWS_BOOT_APPLICATION, 0x10),
];

/// Buffer aligned like any of the structures.
#[repr(C, align(16))]
struct Aligned<const N: usize>([u8; N]);

/// All fields of a structure read as the bytes at their published place, and
/// setting a field changes exactly these bytes.
macro_rules! overlay {
    ($c:expr, $name:expr, $t:ty, $size:expr, $make:expr, $bytes:expr, [$($f:ident: $w:ty = $off:expr),* $(,)?]) => {{
        let r = &mut $c.rng;
        same!(std::mem::size_of::<$t>(), $size, "size of {}", $name);
        let mut d = [0u8; $size];
        let fill = r.bytes($size);
        d.copy_from_slice(&fill);
        if r.chance(1, 4) {
            d = [r.u8(); $size];
        }
        #[allow(clippy::redundant_closure_call)]
        let mut v: $t = ($make)(&d);
        $(
            let n = std::mem::size_of::<$w>();
            same!(std::mem::offset_of!($t, $f), $off, "place of {}.{}", $name, stringify!($f));
            let (got, want) = (v.$f.to_native() as u64, le(&d, $off, n));
            same!(got, want, "{}.{} in {}", $name, stringify!($f), show(&d));
        )*
        {
            let out: &[u8] = ($bytes)(&v);
            same!(out, &d[..], "bytes of {}", $name);
        }
        // Set fields one after another.
        $(
            let n = std::mem::size_of::<$w>();
            let x = r.edge64() as $w;
            v.$f = osi::ffi::Integer::from_native(x);
            d[$off..$off + n].copy_from_slice(&x.to_le_bytes());
            {
                let out: &[u8] = ($bytes)(&v);
                same!(out, &d[..], "bytes of {} after setting {}", $name, stringify!($f));
            }
        )*
        $c.observe(&($name, fill[..$size.min(4)].to_vec()));
        $c.evals(1);
    }};
}

fn mz(c: &mut Case) -> R {
    type D<'a, const N: usize> = &'a [u8; N];
    overlay!(c, "MZ header", msdosmz::Header, 28, |d: D<28>| msdosmz::Header::from_bytes(d), |v: &msdosmz::Header| unsafe { &*(v.as_bytes() as *const [u8; 28]) }, [
        cblp: u16 = 2, cp: u16 = 4, crlc: u16 = 6, cparhdr: u16 = 8, minalloc: u16 = 10, maxalloc: u16 = 12,
        ss: u16 = 14, sp: u16 = 16, csum: u16 = 18, ip: u16 = 20, cs: u16 = 22, lfarlc: u16 = 24, ovno: u16 = 26,
    ]);
    overlay!(c, "MZ extended header", msdosmz::HeaderExt, 36, |d: D<36>| msdosmz::HeaderExt::from_bytes(d), |v: &msdosmz::HeaderExt| unsafe { &*(v.as_bytes() as *const [u8; 36]) }, [
        oemid: u16 = 8, oeminfo: u16 = 10, lfanew: u32 = 32,
    ]);
    overlay!(c, "MZ relocation", msdosmz::Relocation, 4, |d: D<4>| msdosmz::Relocation::from_bytes(d), |v: &msdosmz::Relocation| unsafe { &*(v.as_bytes() as *const [u8; 4]) }, [
        offset: u16 = 0, segment: u16 = 2,
    ]);
    // Fields that are plain bytes, and unaligned input.
    let r = &mut c.rng;
    let d = r.bytes(80);
    let at = r.below(8);
    let h = msdosmz::Header::from_bytes(d[at..at + 28].try_into().unwrap());
    same!(h.magic, d[at..at + 2], "magic");
    same!(&h.as_bytes()[..], &d[at..at + 28], "header bytes");
    let e = msdosmz::HeaderExt::from_bytes(d[at + 28..at + 64].try_into().unwrap());
    same!(e.res, d[at + 28..at + 36], "reserved bytes");
    same!(e.res2, d[at + 40..at + 60], "reserved bytes");
    same!(&e.as_bytes()[..], &d[at + 28..at + 64], "extended header bytes");
    Ok(())
}

/// Overlay for structures without conversions of their own.
fn read<T, const N: usize>(d: &[u8; N]) -> T {
    let a = Aligned::<N>(*d);
    assert!(std::mem::size_of::<T>() == N && std::mem::align_of::<T>() <= 16);
    // SAFETY: only plain integers, big enough and aligned.
    unsafe { std::ptr::read(&a as *const _ as *const T) }
}
fn bytes<T>(v: &T) -> &[u8] {
    // SAFETY: only plain integers without padding.
    unsafe { std::slice::from_raw_parts(v as *const T as *const u8, std::mem::size_of::<T>()) }
}

fn pe(c: &mut Case) -> R {
    overlay!(c, "PE header", pecoff::Header, 20, read, bytes, [
        machine: u16 = 0, number_of_sections: u16 = 2, time_date_stamp: u32 = 4, pointer_to_symbol_table: u32 = 8,
        number_of_symbols: u32 = 12, size_of_optional_header: u16 = 16, characteristics: u16 = 18,
    ]);
    overlay!(c, "PE32 optional header", OptionalHeader, 28, read, bytes, [
        magic: u16 = 0, major_linker_version: u8 = 2, minor_linker_version: u8 = 3, size_of_code: u32 = 4,
        size_of_initialized_data: u32 = 8, size_of_uninitialized_data: u32 = 12, address_of_entry_point: u32 = 16,
        base_of_code: u32 = 20, base_of_data: u32 = 24,
    ]);
    overlay!(c, "PE32+ optional header", OptionalHeader32P, 24, read, bytes, [
        magic: u16 = 0, major_linker_version: u8 = 2, minor_linker_version: u8 = 3, size_of_code: u32 = 4,
        size_of_initialized_data: u32 = 8, size_of_uninitialized_data: u32 = 12, address_of_entry_point: u32 = 16,
        base_of_code: u32 = 20,
    ]);
    overlay!(c, "PE32 optional header extension", OptionalHeaderExt, 68, read, bytes, [
        image_base: u32 = 0, section_alignment: u32 = 4, file_alignment: u32 = 8,
        major_operating_system_version: u16 = 12, minor_operating_system_version: u16 = 14,
        major_image_version: u16 = 16, minor_image_version: u16 = 18,
        major_subsystem_version: u16 = 20, minor_subsystem_version: u16 = 22,
        win32_version_value: u32 = 24, size_of_image: u32 = 28, size_of_headers: u32 = 32, check_sum: u32 = 36,
        subsystem: u16 = 40, dll_characteristics: u16 = 42,
        size_of_stack_reserve: u32 = 44, size_of_stack_commit: u32 = 48, size_of_heap_reserve: u32 = 52, size_of_heap_commit: u32 = 56,
        loader_flags: u32 = 60, number_of_rva_and_sizes: u32 = 64,
    ]);
    overlay!(c, "PE32+ optional header extension", OptionalHeaderExt32P, 88, read, bytes, [
        image_base: u64 = 0, section_alignment: u32 = 8, file_alignment: u32 = 12,
        major_operating_system_version: u16 = 16, minor_operating_system_version: u16 = 18,
        major_image_version: u16 = 20, minor_image_version: u16 = 22,
        major_subsystem_version: u16 = 24, minor_subsystem_version: u16 = 26,
        win32_version_value: u32 = 28, size_of_image: u32 = 32, size_of_headers: u32 = 36, check_sum: u32 = 40,
        subsystem: u16 = 44, dll_characteristics: u16 = 46,
        size_of_stack_reserve: u64 = 48, size_of_stack_commit: u64 = 56, size_of_heap_reserve: u64 = 64, size_of_heap_commit: u64 = 72,
        loader_flags: u32 = 80, number_of_rva_and_sizes: u32 = 84,
    ]);
    overlay!(c, "PE data directory", DataDirectory, 8, read, bytes, [virtual_address: u32 = 0, size: u32 = 4]);
    overlay!(c, "PE section header", SectionHeader, 40, read, bytes, [
        virtual_size: u32 = 8, virtual_address: u32 = 12, size_of_raw_data: u32 = 16, pointer_to_raw_data: u32 = 20,
        pointer_to_relocations: u32 = 24, pointer_to_linenumbers: u32 = 28, number_of_relocations: u16 = 32,
        number_of_linenumbers: u16 = 34, characteristics: u32 = 36,
    ]);
    let d: [u8; 40] = c.rng.bytes(40).try_into().unwrap();
    let s: SectionHeader = read(&d);
    same!(s.name, d[..8], "section name");
    Ok(())
}

fn sums(c: &mut Case) -> R {
    let r = &mut c.rng;
    let n = if cfg!(miri) {
        r.below(40)
    } else if r.chance(1, 400) {
        *r.pick(&[60_000, 131_060, 262_140]) + r.below(12_000)
    } else {
        match r.below(5) { 0 => r.below(4), 1 => r.below(3000), _ => r.below(64) }
    };
    let mut d = r.bytes(n);
    if r.chance(1, 3) {
        let v = *r.pick(&[0, 0xff, 0x80, 1]);
        d.fill(v);
    }
    let at = r.below(n.min(3) + 1);
    let d = &d[at..];
    let mut want = 0u64;
    for (k, v) in d.iter().enumerate() {
        want += if k % 2 == 0 { *v as u64 } else { *v as u64 * 256 };
    }
    same!(msdosmz::sum16(d), (want % 65536) as u16, "sum of {}", show(d));
    c.observe(&("sum", d.len(), want % 65536));
    c.sample(|| format!("sum of {} is {:#06x}", show(d), want % 65536));
    Ok(())
}

/// The stub, as DOS would load and run it.
fn stub(c: &mut Case) -> R {
    let d = &msdosmz::STUB_X86;
    let w = |at| le(d, at, 2) as usize;
    same!(msdosmz::MAGIC, *b"MZ", "magic");
    same!((msdosmz::WORD_SIZE, msdosmz::PARAGRAPH_SIZE, msdosmz::PAGE_SIZE), (2, 16, 512), "units");
    same!(&d[..2], b"MZ", "magic of the stub");
    let (cblp, cp) = (w(2), w(4));
    same!(if cblp == 0 { cp * 512 } else { (cp - 1) * 512 + cblp }, d.len(), "size of the stub in its header");
    same!(w(6), 0, "relocations of the stub");
    let head = w(8) * 16;
    ensure!(head >= 64 && head <= d.len(), "header size of the stub {head}");
    ensure!(w(24) >= 64, "relocation table inside the headers");
    same!(w(26), 0, "overlay number");
    ensure!(w(12) >= w(10), "memory limits of the stub");
    same!(le(d, 0x3c, 4) as usize, d.len(), "offset of the new header");
    let sum = (0..d.len() / 2).fold(0u64, |a, k| a + le(d, 2 * k, 2));
    same!(sum % 65536, 65535, "sum of the words of the stub");
    same!(msdosmz::sum16(d), 0xffff, "checksum of the stub");
    // Interpret the program.
    let code = &d[head..];
    let (mut ip, cs, mut ds, mut dx, mut ax) = (w(20), w(22), None, 0usize, 0usize);
    same!(cs, 0, "code segment");
    let mut stack = vec![];
    let (mut text, mut exit) = (None, None);
    for _ in 0..32 {
        let b = |k: usize| code.get(ip + k).copied().unwrap_or(0) as usize;
        match b(0) {
            0x0e => { stack.push(cs); ip += 1 },
            0x1f => { ds = stack.pop(); ip += 1 },
            0xba => { dx = b(1) | b(2) << 8; ip += 3 },
            0xb4 => { ax = (ax & 0xff) | b(1) << 8; ip += 2 },
            0xb8 => { ax = b(1) | b(2) << 8; ip += 3 },
            0xcd => {
                same!(b(1), 0x21, "interrupt");
                match ax >> 8 {
                    9 => {
                        same!(ds, Some(cs), "data segment when printing");
                        let n = code[dx..].iter().position(|v| *v == b'$').ok_or("text without end")?;
                        text = Some(String::from_utf8(code[dx..dx + n].to_vec()).map_err(|e| e.to_string())?);
                    },
                    0x4c => { exit = Some(ax & 0xff); break },
                    v => return Err(format!("DOS call {v:#x}")),
                }
                ip += 2;
            },
            v => return Err(format!("instruction {v:#x} at {ip:#x}")),
        }
    }
    same!(text.as_deref(), Some("This program cannot be run in DOS mode.\r\r\n"), "text of the stub");
    same!(exit, Some(1), "exit code of the stub");
    c.observe(&"stub");
    Ok(())
}

fn constants(c: &mut Case) -> R {
    let (name, got, want) = PUBLISHED[c.idx as usize];
    same!(got, want, "{name}");
    same!(PE_MAGIC, *b"PE\0\0", "PE magic");
    same!(INVALID_TIMESTAMPS, [0, u32::MAX], "invalid timestamps");
    c.observe(&name);
    Ok(())
}

fn run(cx: &mut Ctx) {
    cx.exhaustive("constants", PUBLISHED.len() as u64, constants);
    cx.section("stub", (1, 1, 1), stub);
    cx.section("mz", (40_000, 1_000_000, 2), mz);
    cx.section("pe", (40_000, 1_000_000, 2), pe);
    cx.section("sums", (100_000, 2_000_000, 10), sums);
}

fn main() {
    harness::main(
        "C27",
        "A case overlays header structures on random bytes and sets every field, sums one byte string, or compares one published constant; distinct = distinct header contents (by structure and leading bytes), sums, or constants.",
        run,
    );
}
