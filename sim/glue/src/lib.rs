//! Monomorphic entry points to the generic parts of the crate under test. This crate is
//! compiled with the same instrumentation as the crate under test, so that the generic code
//! instantiated here can be preempted inside too. No checking happens here.
use zkevm_opcode_defs as z;
use std::fmt;
use z::decoding::{AllowedPcOrImm, VmEncodingMode};
use z::ethereum_types::{Address, U256};

/// the text form with any format options; 4 and 5 are the debug form
macro_rules! styled {
    ($f:ident, $d:ident, $spec:ident) => {
        match $spec {
            0 => write!($f, "{}", $d),
            1 => write!($f, "{:#}", $d),
            2 => write!($f, "{:>400}", $d),
            3 => write!($f, "{:<9.4}", $d),
            4 => write!($f, "{:?}", $d),
            _ => write!($f, "{:#?}", $d),
        }
    };
}
macro_rules! enc {
    ($m:ident, $n:expr, $int:ty, $imm:ty, $e:ident) => {
        pub mod $m {
            use super::*;
            pub type E = z::decoding::$e;
            pub type D = z::DecodedOpcode<$n, E>;
            #[inline(never)]
            pub fn build(
                variant: z::OpcodeVariant,
                condition: z::Condition,
                r: [u8; 4],
                imm0: u64,
                imm1: u64,
            ) -> D {
                D {
                    variant,
                    condition,
                    src0_reg_idx: r[0],
                    src1_reg_idx: r[1],
                    dst0_reg_idx: r[2],
                    dst1_reg_idx: r[3],
                    imm_0: <$imm as AllowedPcOrImm>::from_u64_clipped(imm0),
                    imm_1: <$imm as AllowedPcOrImm>::from_u64_clipped(imm1),
                }
            }
            #[inline(never)]
            pub fn imms(d: &D) -> (u64, u64) {
                (AllowedPcOrImm::as_u64(d.imm_0), AllowedPcOrImm::as_u64(d.imm_1))
            }
            #[inline(never)]
            pub fn parse(w: u128) -> (D, usize) {
                let (d, n) = E::parse_preliminary_variant_and_absolute_number(w as $int);
                (d, n.into_usize())
            }
            #[inline(never)]
            pub fn int(d: &D) -> u128 {
                d.serialize_as_integer() as u128
            }
            #[inline(never)]
            pub fn bytes(d: &D) -> [u8; $n] {
                d.serialize_as_bytes()
            }
            #[inline(never)]
            pub fn fetch(word: U256, index: u64) -> u128 {
                E::integer_representaiton_from_u256(word, index as $imm) as u128
            }
            #[inline(never)]
            pub fn split(pc: u64) -> (u64, u64) {
                let (a, b) = E::split_pc(pc as $imm);
                (a.into(), b.into())
            }
            #[inline(never)]
            pub fn next_pc(pc: u64, n: u64) -> u64 {
                AllowedPcOrImm::wrapping_add(pc as $imm, n as $imm).as_u64()
            }
            #[inline(never)]
            pub fn prev_pc(pc: u64, n: u64) -> u64 {
                AllowedPcOrImm::wrapping_sub(pc as $imm, n as $imm).as_u64()
            }
            #[inline(never)]
            pub fn clip(v: u64) -> u64 {
                <$imm as AllowedPcOrImm>::from_u64_clipped(v).as_u64()
            }
            #[inline(never)]
            pub fn canonical(w: u128) -> bool {
                E::is_canonical_encoding(w as $int)
            }
            #[inline(never)]
            pub fn nop() -> u128 {
                E::nop_encoding() as u128
            }
            #[inline(never)]
            pub fn exc() -> u128 {
                E::exception_revert_encoding() as u128
            }
            #[inline(never)]
            pub fn default() -> D {
                D::default()
            }
            #[inline(never)]
            pub fn mask_panic(d: &mut D) {
                d.mask_into_panic()
            }
            #[inline(never)]
            pub fn mask_nop(d: &mut D) {
                d.mask_into_nop()
            }
            #[inline(never)]
            pub fn render(d: &D, f: &mut dyn fmt::Write, spec: u64) -> fmt::Result {
                styled!(f, d, spec)
            }
            #[inline(never)]
            pub fn render_io(d: &D, f: &mut dyn std::io::Write, spec: u64) -> std::io::Result<()> {
                styled!(f, d, spec)
            }
        }
    };
}
enc!(e8, 8, u64, u16, EncodingModeProduction);
enc!(e16, 16, u128, u32, EncodingModeTesting);

#[inline(never)]
pub fn head8(w: u64) -> (z::OpcodeVariant, z::Condition, usize) {
    z::decoding::EncodingModeProduction::variant_and_condition_from_u64_word(w)
}
#[inline(never)]
pub fn head16(w: u128) -> (z::OpcodeVariant, z::Condition, usize) {
    z::decoding::EncodingModeTesting::variant_and_condition_from_u128_word(w)
}
#[inline(never)]
pub fn render_variant(d: &z::OpcodeVariant, f: &mut dyn fmt::Write, spec: u64) -> fmt::Result {
    styled!(f, d, spec)
}
#[inline(never)]
pub fn render_variant_io(d: &z::OpcodeVariant, f: &mut dyn std::io::Write, spec: u64) -> std::io::Result<()> {
    styled!(f, d, spec)
}

macro_rules! stat {($($f:ident, $s:path, $t:ty;)*) => {$(
    #[inline(never)] pub fn $f() -> &'static $t { &*$s }
)*}}
stat! {
    table, z::OPCODES_TABLE, [z::OpcodeVariant];
    bitmasks, z::OPCODES_PROPS_INTEGER_BITMASKS, [u64];
    prices, z::OPCODES_PRICES, [u32];
    nop_variant, z::NOP_OPCODE_VARIANT, z::OpcodeVariant;
    panic_variant, z::PANIC_OPCODE_VARIANT, z::OpcodeVariant;
    nop_bits, z::NOP_BITSPREAD_U64, u64;
    panic_bits, z::PANIC_BITSPREAD_U64, u64;
    prototypes, z::OPCODE_PROTOTYPES, [Box<dyn z::OpcodeProps>];
    num_logical, z::NUM_LOGICAL_OPCODES, usize;
    num_input, z::NUM_INPUT_VARIANTS, usize;
    num_output, z::NUM_OUTPUT_VARIANTS, usize;
    a_boot, z::system_params::BOOTLOADER_FORMAL_ADDRESS, Address;
    a_deployer, z::system_params::DEPLOYER_SYSTEM_CONTRACT_ADDRESS, Address;
    a_nonce, z::system_params::NONCE_MANAGER_SYSTEM_CONTRACT_ADDRESS, Address;
    a_known, z::system_params::KNOWN_CODE_FACTORY_SYSTEM_CONTRACT_ADDRESS, Address;
    a_keccak, z::system_params::KECCAK256_ROUND_FUNCTION_PRECOMPILE_FORMAL_ADDRESS, Address;
    a_sha, z::system_params::SHA256_ROUND_FUNCTION_PRECOMPILE_FORMAL_ADDRESS, Address;
    a_ecrec, z::system_params::ECRECOVER_INNER_FUNCTION_PRECOMPILE_FORMAL_ADDRESS, Address;
}
#[inline(never)]
pub fn canonical_get(v: &z::OpcodeVariant) -> Option<usize> {
    z::OPCODE_TO_CANONICAL_INDEX_LOOKUP_MAP.get(v).copied()
}
#[inline(never)]
pub fn canonical_len() -> usize {
    z::OPCODE_TO_CANONICAL_INDEX_LOOKUP_MAP.len()
}
#[inline(never)]
pub fn monotonic_get(v: &z::OpcodeVariant) -> Option<usize> {
    z::OPCODE_TO_MONOTONIC_INDEX_NUMBER_MAP.get(v).map(|x| x.into_usize())
}
#[inline(never)]
pub fn monotonic_len() -> usize {
    z::OPCODE_TO_MONOTONIC_INDEX_NUMBER_MAP.len()
}

// versioned hashes (generic over the record definition)
pub type Vh = z::VersionedHashGeneric<z::ContractCodeSha256>;
#[inline(never)]
pub fn vh_read(raw: [u8; 32]) -> Option<Vh> {
    Vh::try_create_from_raw(raw)
}
#[inline(never)]
pub fn vh_layout(v: &Vh) -> (u16, u8, [u8; 28]) {
    let l = v.layout_ref();
    (l.code_length_in_words, l.extra_marker, l.partial_hash)
}
#[inline(never)]
pub fn vh_ser(v: Vh) -> Option<[u8; 32]> {
    v.serialize()
}
#[inline(never)]
pub fn vh_stored(v: Vh) -> Option<[u8; 32]> {
    v.serialize_to_stored()
}
#[inline(never)]
pub fn vh_new(digest: [u8; 32], n: u16) -> Vh {
    Vh::from_digest_and_preimage_num_words(digest, n)
}
#[cfg(feature = "codehash")]
#[inline(never)]
pub fn code_hash(w: &[[u8; 32]]) -> Result<[u8; 32], ()> {
    z::bytecode_to_code_hash(w)
}
#[cfg(feature = "codehash")]
#[inline(never)]
pub fn code_hash16(w: &[[u8; 32]]) -> Result<[u8; 32], ()> {
    z::bytecode_to_code_hash_for_mode::<16, z::decoding::EncodingModeTesting>(w)
}

// the words call frames and precompiles exchange
#[inline(never)]
pub fn fat_unpack(w: [u64; 4]) -> z::FatPointer {
    z::FatPointer::from_u256(U256(w))
}
#[inline(never)]
pub fn fat_pack(p: z::FatPointer) -> [u64; 4] {
    p.to_u256().0
}
#[inline(never)]
pub fn fat_empty() -> z::FatPointer {
    z::FatPointer::empty()
}
#[inline(never)]
pub fn fat_validate(p: z::FatPointer, fresh: bool) -> u64 {
    p.validate(fresh).bits()
}
#[inline(never)]
pub fn fat_in_bounds(p: &z::FatPointer) -> bool {
    p.validate_in_bounds()
}
#[inline(never)]
pub fn fat_as_slice(p: &z::FatPointer) -> bool {
    p.validate_as_slice()
}
#[inline(never)]
pub fn fat_trivial(p: &z::FatPointer) -> bool {
    p.is_trivial()
}
#[inline(never)]
pub fn far_unpack(w: [u64; 4]) -> z::FarCallABI {
    z::FarCallABI::from_u256(U256(w))
}
#[inline(never)]
pub fn near_unpack(w: [u64; 4]) -> z::NearCallABI {
    z::NearCallABI::from_u256(U256(w))
}
#[inline(never)]
pub fn ret_unpack(w: [u64; 4]) -> z::RetABI {
    z::RetABI::from_u256(U256(w))
}
#[inline(never)]
pub fn pre_unpack(w: [u64; 4]) -> z::PrecompileCallABI {
    z::PrecompileCallABI::from_u256(U256(w))
}
#[inline(never)]
pub fn inner_unpack(w: [u64; 4]) -> z::PrecompileCallInnerABI {
    z::PrecompileCallInnerABI::from_u256(U256(w))
}
#[inline(never)]
pub fn inner_pack(p: z::PrecompileCallInnerABI) -> [u64; 4] {
    p.to_u256().0
}
#[inline(never)]
pub fn meta_pack(p: z::VmMetaParameters) -> [u64; 4] {
    p.to_u256().0
}
#[inline(never)]
pub fn mode_far(x: u8) -> z::FarCallForwardPageType {
    z::FarCallForwardPageType::from_u8(x)
}
#[inline(never)]
pub fn mode_ret(x: u8) -> z::RetForwardPageType {
    z::RetForwardPageType::from_u8(x)
}
