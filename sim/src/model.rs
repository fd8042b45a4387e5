//! The reference model: the ISA written down independently of the crate under test. Only the
//! crate's public data types are used here (constructors and pattern matching), none of its
//! functions or tables.
use zkevm_opcode_defs as z;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Mode {
    Reg,
    RI(u8),
    Full(u8),
}
impl Mode {
    pub fn bit(&self) -> u32 {
        match self {
            Mode::Reg => 0,
            Mode::RI(x) | Mode::Full(x) => *x as u32,
        }
    }
}
/// One opcode variant: family (numbered as in the property bitmask), sub-variant, modes, flags.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct MV {
    pub fam: u8,
    pub sub: u8,
    pub src: Mode,
    pub dst: Mode,
    pub f0: bool,
    pub f1: bool,
}
pub const INVALID: MV = MV { fam: 0, sub: 0, src: Mode::Reg, dst: Mode::Reg, f0: false, f1: false };
pub const NOP: MV =
    MV { fam: 1, sub: 0, src: Mode::Full(0), dst: Mode::Full(0), f0: false, f1: false };
pub const PANIC: MV =
    MV { fam: 14, sub: 2, src: Mode::Reg, dst: Mode::Reg, f0: false, f1: false };

pub const NAMES: [&str; 16] = [
    "Invalid", "Nop", "Add", "Sub", "Mul", "Div", "Jump", "Context", "Shift", "Binop", "Ptr",
    "NearCall", "Log", "FarCall", "Ret", "UMA",
];
pub const SUBNAMES: [&[&str]; 16] = [
    &["InvalidOpcode"],
    &["NopOpcode"],
    &["Add"],
    &["Sub"],
    &["MulOpcode"],
    &["DivOpcode"],
    &["JumpOpcode"],
    &[
        "This", "Caller", "CodeAddress", "Meta", "ErgsLeft", "Sp", "GetContextU128",
        "SetContextU128", "SetErgsPerPubdataByte", "IncrementTxNumber",
    ],
    &["Shl", "Shr", "Rol", "Ror"],
    &["Xor", "And", "Or"],
    &["Add", "Sub", "Pack", "Shrink"],
    &["NearCallOpcode"],
    &["StorageRead", "StorageWrite", "ToL1Message", "Event", "PrecompileCall"],
    &["Normal", "Delegate", "Mimic"],
    &["Ok", "Revert", "Panic"],
    &["HeapRead", "HeapWrite", "AuxHeapRead", "AuxHeapWrite", "FatPointerRead"],
];
pub const FULL_NAMES: [&str; 6] = [
    "UseRegOnly", "UseStackWithPushPop", "UseStackWithOffset", "UseAbsoluteOnStack",
    "UseImm16Only", "UseCodePage",
];
pub const COND_NAMES: [&str; 8] = ["Always", "Gt", "Lt", "Eq", "Ge", "Le", "Ne", "GtOrLt"];
/// the order in which families occupy the index space
pub const ORDER: [u8; 16] = [0, 1, 2, 3, 4, 5, 6, 9, 8, 10, 11, 7, 12, 13, 14, 15];

pub fn num_subs(fam: u8) -> u8 {
    SUBNAMES[fam as usize].len() as u8
}
pub fn flags_of(fam: u8, sub: u8) -> u8 {
    match fam {
        0 | 1 | 6 | 7 | 11 => 0,
        2 | 4 | 9 | 10 | 14 | 15 => 1,
        3 | 5 | 8 | 13 => 2,
        12 => (sub == 2 || sub == 3) as u8,
        _ => unreachable!(),
    }
}
pub fn imms_of(fam: u8) -> u8 {
    match fam {
        0 | 7 | 12 | 15 => 0,
        6 | 13 | 14 => 1,
        _ => 2,
    }
}
/// operands as described for a (sub)variant
pub fn operands(fam: u8, sub: u8, v: u8) -> (Vec<Mode>, Vec<Mode>) {
    use Mode::*;
    let f = Full(0);
    match fam {
        0 => (vec![], vec![]),
        1 => (vec![f], vec![f]),
        2 | 3 | 8 | 9 | 10 => (vec![f, Reg], vec![f]),
        4 | 5 => (vec![f, Reg], vec![f, Reg]),
        6 => (vec![f], vec![]),
        7 => match sub {
            7 | 8 => (vec![Reg], vec![]),
            9 => (vec![], vec![]),
            _ => (vec![], vec![Reg]),
        },
        11 => (vec![Reg], vec![]),
        12 => match sub {
            1 | 2 | 3 => (vec![Reg, Reg], vec![]),
            _ => (vec![Reg], vec![Reg]),
        },
        13 => (vec![Reg, Reg], vec![]),
        14 => (if sub == 2 { vec![] } else { vec![Reg] }, vec![]),
        15 => {
            let a = if v >= 1 && sub != 4 { RI(0) } else { Reg };
            if sub == 1 || sub == 3 {
                (vec![a, Reg], vec![Reg])
            } else {
                (vec![a], vec![Reg, Reg])
            }
        }
        _ => unreachable!(),
    }
}
fn push_flags(out: &mut Vec<MV>, v: MV, n: u8) {
    match n {
        0 => out.push(v),
        1 => {
            for b in [false, true] {
                out.push(MV { f0: b, ..v })
            }
        }
        _ => {
            for a in [false, true] {
                for b in [false, true] {
                    out.push(MV { f0: a, f1: b, ..v })
                }
            }
        }
    }
}
/// The index space of an ISA version.
pub fn table(version: u8) -> Vec<MV> {
    let mut t = vec![];
    for fam in ORDER {
        for sub in 0..num_subs(fam) {
            let n = flags_of(fam, sub);
            let (i, o) = operands(fam, sub, 0);
            let base = MV { fam, sub, ..INVALID };
            let full_in = matches!(i.first(), Some(Mode::Full(_)));
            let full_out = matches!(o.first(), Some(Mode::Full(_)));
            if full_in && full_out {
                for s in 0..6 {
                    for d in 0..4 {
                        push_flags(&mut t, MV { src: Mode::Full(s), dst: Mode::Full(d), ..base }, n)
                    }
                }
            } else if full_in {
                for s in 0..6 {
                    push_flags(&mut t, MV { src: Mode::Full(s), ..base }, n)
                }
            } else {
                let src = if version >= 1 && fam == 15 && sub != 4 { Mode::RI(0) } else { Mode::Reg };
                push_flags(&mut t, MV { src, ..base }, n)
            }
        }
    }
    if version >= 1 {
        for sub in 0..4 {
            push_flags(&mut t, MV { fam: 15, sub, src: Mode::RI(4), ..INVALID }, 1)
        }
    }
    assert!(t.len() <= 2048);
    t.resize(2048, INVALID);
    t
}
pub fn price(v: &MV) -> u32 {
    match v.fam {
        0 => u32::MAX,
        1..=6 | 8..=10 => 6,
        7 | 14 => 5,
        11 => 25,
        12 => [158, 3501, 156250, 38, 6][v.sub as usize],
        13 => 182,
        15 => {
            if v.sub == 1 || v.sub == 3 {
                13
            } else {
                7
            }
        }
        _ => unreachable!(),
    }
}
pub fn kernel(v: &MV) -> bool {
    matches!((v.fam, v.sub), (7, 7..=9) | (12, 2..=4) | (13, 2))
}
pub fn static_ok(v: &MV) -> bool {
    !matches!((v.fam, v.sub), (7, 7..=9) | (12, 1..=3))
}
pub fn swap(v: &MV) -> bool {
    match v.fam {
        3 | 5 | 8 => v.f1,
        10 => v.f0,
        _ => false,
    }
}
pub fn bitmask(v: &MV) -> u64 {
    let mut m = 1u64 << v.fam | 1 << (16 + v.sub);
    m |= (v.f0 as u64) << 26 | (v.f1 as u64) << 27;
    m |= 1 << (28 + v.src.bit()) | 1 << (34 + v.dst.bit());
    m |= (kernel(v) as u64) << 48 | (static_ok(v) as u64) << 49 | ((v.fam == 0) as u64) << 50;
    m
}

// ------------------------------------------------------------------ instructions
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct MI {
    pub v: MV,
    pub cond: u8,
    pub r: [u8; 4], // src0 src1 dst0 dst1
    pub imm0: u32,
    pub imm1: u32,
}
pub fn common_bits(idx: u16, i: &MI) -> u64 {
    (idx as u64 & 0x7ff)
        | (i.cond as u64) << 13
        | (i.r[0] as u64) << 16
        | (i.r[1] as u64) << 20
        | (i.r[2] as u64) << 24
        | (i.r[3] as u64) << 28
}
pub fn encode8(idx: u16, i: &MI) -> u64 {
    common_bits(idx, i) | (i.imm0 as u64 & 0xffff) << 32 | (i.imm1 as u64 & 0xffff) << 48
}
pub fn encode16(idx: u16, i: &MI) -> u128 {
    common_bits(idx, i) as u128 | (i.imm0 as u128) << 32 | (i.imm1 as u128) << 64
}
pub fn encode(enc: u8, idx: u16, i: &MI) -> u128 {
    if enc == 0 {
        encode8(idx, i) as u128
    } else {
        encode16(idx, i)
    }
}
/// the one meaning of any word: (index, instruction, canonical)
pub fn decode(enc: u8, t: &[MV], w: u128) -> (u16, MI, bool) {
    let idx = (w & 0x7ff) as u16;
    let nib = |s: u32| ((w >> s) & 15) as u8;
    let (imm0, imm1) = if enc == 0 {
        (((w >> 32) & 0xffff) as u32, ((w >> 48) & 0xffff) as u32)
    } else {
        ((w >> 32) as u32, (w >> 64) as u32)
    };
    let mut unused = (w >> 11) & 3;
    if enc == 1 {
        unused |= w >> 96;
    }
    let i = MI {
        v: t[idx as usize],
        cond: ((w >> 13) & 7) as u8,
        r: [nib(16), nib(20), nib(24), nib(28)],
        imm0,
        imm1,
    };
    (idx, i, unused == 0)
}

// ------------------------------------------------------------------ to and from the crate's types
pub fn to_mode(o: &z::Operand) -> Mode {
    use z::{ImmMemHandlerFlags as I, RegOrImmFlags as R};
    match o {
        z::Operand::RegOnly => Mode::Reg,
        z::Operand::RegOrImm(R::UseRegOnly) => Mode::RI(0),
        z::Operand::RegOrImm(R::UseImm16Only) => Mode::RI(4),
        z::Operand::Full(f) => Mode::Full(match f {
            I::UseRegOnly => 0,
            I::UseStackWithPushPop => 1,
            I::UseStackWithOffset => 2,
            I::UseAbsoluteOnStack => 3,
            I::UseImm16Only => 4,
            I::UseCodePage => 5,
        }),
    }
}
pub fn from_mode(m: &Mode) -> z::Operand {
    use z::{ImmMemHandlerFlags as I, RegOrImmFlags as R};
    match m {
        Mode::Reg => z::Operand::RegOnly,
        Mode::RI(0) => z::Operand::RegOrImm(R::UseRegOnly),
        Mode::RI(_) => z::Operand::RegOrImm(R::UseImm16Only),
        Mode::Full(n) => z::Operand::Full(
            [
                I::UseRegOnly,
                I::UseStackWithPushPop,
                I::UseStackWithOffset,
                I::UseAbsoluteOnStack,
                I::UseImm16Only,
                I::UseCodePage,
            ][*n as usize],
        ),
    }
}
macro_rules! ops {
    ($( $fam:expr, $f:ident, [ $($p:pat => $e:expr),* ] ;)*) => {
        pub fn to_op(o: &z::Opcode) -> (u8, u8) {
            match o { $( z::Opcode::$f(s) => { let mut n = 0u8; let _ = &mut n; $( if let $p = s { return ($fam, n); } #[allow(unreachable_code)] { n += 1; } )* let _ = n; unreachable!() } )* }
        }
        pub fn from_op(fam: u8, sub: u8) -> z::Opcode {
            match fam { $( $fam => { let v = [ $($e),* ]; z::Opcode::$f(v[sub as usize]) } )* _ => unreachable!() }
        }
    };
}
#[allow(unreachable_code, irrefutable_let_patterns, unused_assignments)]
mod conv {
    use super::z;
    use z::*;
    ops! {
        0, Invalid, [InvalidOpcode => InvalidOpcode];
        1, Nop, [NopOpcode => NopOpcode];
        2, Add, [AddOpcode::Add => AddOpcode::Add];
        3, Sub, [SubOpcode::Sub => SubOpcode::Sub];
        4, Mul, [MulOpcode => MulOpcode];
        5, Div, [DivOpcode => DivOpcode];
        6, Jump, [JumpOpcode => JumpOpcode];
        7, Context, [ContextOpcode::This => ContextOpcode::This, ContextOpcode::Caller => ContextOpcode::Caller,
            ContextOpcode::CodeAddress => ContextOpcode::CodeAddress, ContextOpcode::Meta => ContextOpcode::Meta,
            ContextOpcode::ErgsLeft => ContextOpcode::ErgsLeft, ContextOpcode::Sp => ContextOpcode::Sp,
            ContextOpcode::GetContextU128 => ContextOpcode::GetContextU128,
            ContextOpcode::SetContextU128 => ContextOpcode::SetContextU128,
            ContextOpcode::SetErgsPerPubdataByte => ContextOpcode::SetErgsPerPubdataByte,
            ContextOpcode::IncrementTxNumber => ContextOpcode::IncrementTxNumber];
        8, Shift, [ShiftOpcode::Shl => ShiftOpcode::Shl, ShiftOpcode::Shr => ShiftOpcode::Shr,
            ShiftOpcode::Rol => ShiftOpcode::Rol, ShiftOpcode::Ror => ShiftOpcode::Ror];
        9, Binop, [BinopOpcode::Xor => BinopOpcode::Xor, BinopOpcode::And => BinopOpcode::And, BinopOpcode::Or => BinopOpcode::Or];
        10, Ptr, [PtrOpcode::Add => PtrOpcode::Add, PtrOpcode::Sub => PtrOpcode::Sub,
            PtrOpcode::Pack => PtrOpcode::Pack, PtrOpcode::Shrink => PtrOpcode::Shrink];
        11, NearCall, [NearCallOpcode => NearCallOpcode];
        12, Log, [LogOpcode::StorageRead => LogOpcode::StorageRead, LogOpcode::StorageWrite => LogOpcode::StorageWrite,
            LogOpcode::ToL1Message => LogOpcode::ToL1Message, LogOpcode::Event => LogOpcode::Event,
            LogOpcode::PrecompileCall => LogOpcode::PrecompileCall];
        13, FarCall, [FarCallOpcode::Normal => FarCallOpcode::Normal, FarCallOpcode::Delegate => FarCallOpcode::Delegate,
            FarCallOpcode::Mimic => FarCallOpcode::Mimic];
        14, Ret, [RetOpcode::Ok => RetOpcode::Ok, RetOpcode::Revert => RetOpcode::Revert, RetOpcode::Panic => RetOpcode::Panic];
        15, UMA, [UMAOpcode::HeapRead => UMAOpcode::HeapRead, UMAOpcode::HeapWrite => UMAOpcode::HeapWrite,
            UMAOpcode::AuxHeapRead => UMAOpcode::AuxHeapRead, UMAOpcode::AuxHeapWrite => UMAOpcode::AuxHeapWrite,
            UMAOpcode::FatPointerRead => UMAOpcode::FatPointerRead];
    }
}
pub use conv::{from_op, to_op};

pub fn to_mv(v: &z::OpcodeVariant) -> MV {
    let (fam, sub) = to_op(&v.opcode);
    MV {
        fam,
        sub,
        src: to_mode(&v.src0_operand_type),
        dst: to_mode(&v.dst0_operand_type),
        f0: v.flags[0],
        f1: v.flags[1],
    }
}
pub fn from_mv(m: &MV) -> z::OpcodeVariant {
    z::OpcodeVariant {
        opcode: from_op(m.fam, m.sub),
        src0_operand_type: from_mode(&m.src),
        dst0_operand_type: from_mode(&m.dst),
        flags: [m.f0, m.f1],
    }
}
pub const CONDS: [z::Condition; 8] = [
    z::Condition::Always,
    z::Condition::Gt,
    z::Condition::Lt,
    z::Condition::Eq,
    z::Condition::Ge,
    z::Condition::Le,
    z::Condition::Ne,
    z::Condition::GtOrLt,
];
pub fn cond_idx(c: &z::Condition) -> u8 {
    CONDS.iter().position(|x| x == c).unwrap() as u8
}
