//! C12, generated by engine/gen_arity.py: From tuples of every arity from 0 to 32
use crate::nd;
use crate::spec::*;
use tagged_box::TaggableContainer;

tagged_box! {
    pub struct CM0, pub enum EM0 {
        V0(),
        V1(u16),
        V2(bool, u8),
        V3(u64, u16, u32),
        V4(u32, u8, u32, u16),
        V5(u32, u16, u64, bool, u8),
        V6(u64, bool, u8, u64, u16, u32),
        V7(u8, u64, u16, u32, u8, u32, u16),
    }
}
fn is_m0(k: u8, e: &EM0, f: &[u64; 32]) -> bool {
    match e {
        EM0::V0() => k == 0,
        EM0::V1(x0) => k == 1 && *x0 == (f[0] as u16),
        EM0::V2(x0, x1) => k == 2 && *x0 == (f[0] & 1 == 1) && *x1 == (f[1] as u8),
        EM0::V3(x0, x1, x2) => k == 3 && *x0 == (f[0] as u64) && *x1 == (f[1] as u16) && *x2 == (f[2] as u32),
        EM0::V4(x0, x1, x2, x3) => k == 4 && *x0 == (f[0] as u32) && *x1 == (f[1] as u8) && *x2 == (f[2] as u32) && *x3 == (f[3] as u16),
        EM0::V5(x0, x1, x2, x3, x4) => k == 5 && *x0 == (f[0] as u32) && *x1 == (f[1] as u16) && *x2 == (f[2] as u64) && *x3 == (f[3] & 1 == 1) && *x4 == (f[4] as u8),
        EM0::V6(x0, x1, x2, x3, x4, x5) => k == 6 && *x0 == (f[0] as u64) && *x1 == (f[1] & 1 == 1) && *x2 == (f[2] as u8) && *x3 == (f[3] as u64) && *x4 == (f[4] as u16) && *x5 == (f[5] as u32),
        EM0::V7(x0, x1, x2, x3, x4, x5, x6) => k >= 7 && *x0 == (f[0] as u8) && *x1 == (f[1] as u64) && *x2 == (f[2] as u16) && *x3 == (f[3] as u32) && *x4 == (f[4] as u8) && *x5 == (f[5] as u32) && *x6 == (f[6] as u16),
    }
}

tagged_box! {
    pub struct CM8, pub enum EM8 {
        V8(u16, u32, u8, u32, u16, u64, bool, u8),
        V9(u8, u32, u16, u64, bool, u8, u64, u16, u32),
        V10(u16, u64, bool, u8, u64, u16, u32, u8, u32, u16),
        V11(bool, u8, u64, u16, u32, u8, u32, u16, u64, bool, u8),
        V12(u64, u16, u32, u8, u32, u16, u64, bool, u8, u64, u16, u32),
        V13(u32, u8, u32, u16, u64, bool, u8, u64, u16, u32, u8, u32, u16),
        V14(u32, u16, u64, bool, u8, u64, u16, u32, u8, u32, u16, u64, bool, u8),
        V15(u64, bool, u8, u64, u16, u32, u8, u32, u16, u64, bool, u8, u64, u16, u32),
    }
}
fn is_m8(k: u8, e: &EM8, f: &[u64; 32]) -> bool {
    match e {
        EM8::V8(x0, x1, x2, x3, x4, x5, x6, x7) => k == 0 && *x0 == (f[0] as u16) && *x1 == (f[1] as u32) && *x2 == (f[2] as u8) && *x3 == (f[3] as u32) && *x4 == (f[4] as u16) && *x5 == (f[5] as u64) && *x6 == (f[6] & 1 == 1) && *x7 == (f[7] as u8),
        EM8::V9(x0, x1, x2, x3, x4, x5, x6, x7, x8) => k == 1 && *x0 == (f[0] as u8) && *x1 == (f[1] as u32) && *x2 == (f[2] as u16) && *x3 == (f[3] as u64) && *x4 == (f[4] & 1 == 1) && *x5 == (f[5] as u8) && *x6 == (f[6] as u64) && *x7 == (f[7] as u16) && *x8 == (f[8] as u32),
        EM8::V10(x0, x1, x2, x3, x4, x5, x6, x7, x8, x9) => k == 2 && *x0 == (f[0] as u16) && *x1 == (f[1] as u64) && *x2 == (f[2] & 1 == 1) && *x3 == (f[3] as u8) && *x4 == (f[4] as u64) && *x5 == (f[5] as u16) && *x6 == (f[6] as u32) && *x7 == (f[7] as u8) && *x8 == (f[8] as u32) && *x9 == (f[9] as u16),
        EM8::V11(x0, x1, x2, x3, x4, x5, x6, x7, x8, x9, x10) => k == 3 && *x0 == (f[0] & 1 == 1) && *x1 == (f[1] as u8) && *x2 == (f[2] as u64) && *x3 == (f[3] as u16) && *x4 == (f[4] as u32) && *x5 == (f[5] as u8) && *x6 == (f[6] as u32) && *x7 == (f[7] as u16) && *x8 == (f[8] as u64) && *x9 == (f[9] & 1 == 1) && *x10 == (f[10] as u8),
        EM8::V12(x0, x1, x2, x3, x4, x5, x6, x7, x8, x9, x10, x11) => k == 4 && *x0 == (f[0] as u64) && *x1 == (f[1] as u16) && *x2 == (f[2] as u32) && *x3 == (f[3] as u8) && *x4 == (f[4] as u32) && *x5 == (f[5] as u16) && *x6 == (f[6] as u64) && *x7 == (f[7] & 1 == 1) && *x8 == (f[8] as u8) && *x9 == (f[9] as u64) && *x10 == (f[10] as u16) && *x11 == (f[11] as u32),
        EM8::V13(x0, x1, x2, x3, x4, x5, x6, x7, x8, x9, x10, x11, x12) => k == 5 && *x0 == (f[0] as u32) && *x1 == (f[1] as u8) && *x2 == (f[2] as u32) && *x3 == (f[3] as u16) && *x4 == (f[4] as u64) && *x5 == (f[5] & 1 == 1) && *x6 == (f[6] as u8) && *x7 == (f[7] as u64) && *x8 == (f[8] as u16) && *x9 == (f[9] as u32) && *x10 == (f[10] as u8) && *x11 == (f[11] as u32) && *x12 == (f[12] as u16),
        EM8::V14(x0, x1, x2, x3, x4, x5, x6, x7, x8, x9, x10, x11, x12, x13) => k == 6 && *x0 == (f[0] as u32) && *x1 == (f[1] as u16) && *x2 == (f[2] as u64) && *x3 == (f[3] & 1 == 1) && *x4 == (f[4] as u8) && *x5 == (f[5] as u64) && *x6 == (f[6] as u16) && *x7 == (f[7] as u32) && *x8 == (f[8] as u8) && *x9 == (f[9] as u32) && *x10 == (f[10] as u16) && *x11 == (f[11] as u64) && *x12 == (f[12] & 1 == 1) && *x13 == (f[13] as u8),
        EM8::V15(x0, x1, x2, x3, x4, x5, x6, x7, x8, x9, x10, x11, x12, x13, x14) => k >= 7 && *x0 == (f[0] as u64) && *x1 == (f[1] & 1 == 1) && *x2 == (f[2] as u8) && *x3 == (f[3] as u64) && *x4 == (f[4] as u16) && *x5 == (f[5] as u32) && *x6 == (f[6] as u8) && *x7 == (f[7] as u32) && *x8 == (f[8] as u16) && *x9 == (f[9] as u64) && *x10 == (f[10] & 1 == 1) && *x11 == (f[11] as u8) && *x12 == (f[12] as u64) && *x13 == (f[13] as u16) && *x14 == (f[14] as u32),
    }
}

tagged_box! {
    pub struct CM16, pub enum EM16 {
        V16(u8, u64, u16, u32, u8, u32, u16, u64, bool, u8, u64, u16, u32, u8, u32, u16),
        V17(u16, u32, u8, u32, u16, u64, bool, u8, u64, u16, u32, u8, u32, u16, u64, bool, u8),
        V18(u8, u32, u16, u64, bool, u8, u64, u16, u32, u8, u32, u16, u64, bool, u8, u64, u16, u32),
        V19(u16, u64, bool, u8, u64, u16, u32, u8, u32, u16, u64, bool, u8, u64, u16, u32, u8, u32, u16),
        V20(bool, u8, u64, u16, u32, u8, u32, u16, u64, bool, u8, u64, u16, u32, u8, u32, u16, u64, bool, u8),
        V21(u64, u16, u32, u8, u32, u16, u64, bool, u8, u64, u16, u32, u8, u32, u16, u64, bool, u8, u64, u16, u32),
        V22(u32, u8, u32, u16, u64, bool, u8, u64, u16, u32, u8, u32, u16, u64, bool, u8, u64, u16, u32, u8, u32, u16),
        V23(u32, u16, u64, bool, u8, u64, u16, u32, u8, u32, u16, u64, bool, u8, u64, u16, u32, u8, u32, u16, u64, bool, u8),
    }
}
fn is_m16(k: u8, e: &EM16, f: &[u64; 32]) -> bool {
    match e {
        EM16::V16(x0, x1, x2, x3, x4, x5, x6, x7, x8, x9, x10, x11, x12, x13, x14, x15) => k == 0 && *x0 == (f[0] as u8) && *x1 == (f[1] as u64) && *x2 == (f[2] as u16) && *x3 == (f[3] as u32) && *x4 == (f[4] as u8) && *x5 == (f[5] as u32) && *x6 == (f[6] as u16) && *x7 == (f[7] as u64) && *x8 == (f[8] & 1 == 1) && *x9 == (f[9] as u8) && *x10 == (f[10] as u64) && *x11 == (f[11] as u16) && *x12 == (f[12] as u32) && *x13 == (f[13] as u8) && *x14 == (f[14] as u32) && *x15 == (f[15] as u16),
        EM16::V17(x0, x1, x2, x3, x4, x5, x6, x7, x8, x9, x10, x11, x12, x13, x14, x15, x16) => k == 1 && *x0 == (f[0] as u16) && *x1 == (f[1] as u32) && *x2 == (f[2] as u8) && *x3 == (f[3] as u32) && *x4 == (f[4] as u16) && *x5 == (f[5] as u64) && *x6 == (f[6] & 1 == 1) && *x7 == (f[7] as u8) && *x8 == (f[8] as u64) && *x9 == (f[9] as u16) && *x10 == (f[10] as u32) && *x11 == (f[11] as u8) && *x12 == (f[12] as u32) && *x13 == (f[13] as u16) && *x14 == (f[14] as u64) && *x15 == (f[15] & 1 == 1) && *x16 == (f[16] as u8),
        EM16::V18(x0, x1, x2, x3, x4, x5, x6, x7, x8, x9, x10, x11, x12, x13, x14, x15, x16, x17) => k == 2 && *x0 == (f[0] as u8) && *x1 == (f[1] as u32) && *x2 == (f[2] as u16) && *x3 == (f[3] as u64) && *x4 == (f[4] & 1 == 1) && *x5 == (f[5] as u8) && *x6 == (f[6] as u64) && *x7 == (f[7] as u16) && *x8 == (f[8] as u32) && *x9 == (f[9] as u8) && *x10 == (f[10] as u32) && *x11 == (f[11] as u16) && *x12 == (f[12] as u64) && *x13 == (f[13] & 1 == 1) && *x14 == (f[14] as u8) && *x15 == (f[15] as u64) && *x16 == (f[16] as u16) && *x17 == (f[17] as u32),
        EM16::V19(x0, x1, x2, x3, x4, x5, x6, x7, x8, x9, x10, x11, x12, x13, x14, x15, x16, x17, x18) => k == 3 && *x0 == (f[0] as u16) && *x1 == (f[1] as u64) && *x2 == (f[2] & 1 == 1) && *x3 == (f[3] as u8) && *x4 == (f[4] as u64) && *x5 == (f[5] as u16) && *x6 == (f[6] as u32) && *x7 == (f[7] as u8) && *x8 == (f[8] as u32) && *x9 == (f[9] as u16) && *x10 == (f[10] as u64) && *x11 == (f[11] & 1 == 1) && *x12 == (f[12] as u8) && *x13 == (f[13] as u64) && *x14 == (f[14] as u16) && *x15 == (f[15] as u32) && *x16 == (f[16] as u8) && *x17 == (f[17] as u32) && *x18 == (f[18] as u16),
        EM16::V20(x0, x1, x2, x3, x4, x5, x6, x7, x8, x9, x10, x11, x12, x13, x14, x15, x16, x17, x18, x19) => k == 4 && *x0 == (f[0] & 1 == 1) && *x1 == (f[1] as u8) && *x2 == (f[2] as u64) && *x3 == (f[3] as u16) && *x4 == (f[4] as u32) && *x5 == (f[5] as u8) && *x6 == (f[6] as u32) && *x7 == (f[7] as u16) && *x8 == (f[8] as u64) && *x9 == (f[9] & 1 == 1) && *x10 == (f[10] as u8) && *x11 == (f[11] as u64) && *x12 == (f[12] as u16) && *x13 == (f[13] as u32) && *x14 == (f[14] as u8) && *x15 == (f[15] as u32) && *x16 == (f[16] as u16) && *x17 == (f[17] as u64) && *x18 == (f[18] & 1 == 1) && *x19 == (f[19] as u8),
        EM16::V21(x0, x1, x2, x3, x4, x5, x6, x7, x8, x9, x10, x11, x12, x13, x14, x15, x16, x17, x18, x19, x20) => k == 5 && *x0 == (f[0] as u64) && *x1 == (f[1] as u16) && *x2 == (f[2] as u32) && *x3 == (f[3] as u8) && *x4 == (f[4] as u32) && *x5 == (f[5] as u16) && *x6 == (f[6] as u64) && *x7 == (f[7] & 1 == 1) && *x8 == (f[8] as u8) && *x9 == (f[9] as u64) && *x10 == (f[10] as u16) && *x11 == (f[11] as u32) && *x12 == (f[12] as u8) && *x13 == (f[13] as u32) && *x14 == (f[14] as u16) && *x15 == (f[15] as u64) && *x16 == (f[16] & 1 == 1) && *x17 == (f[17] as u8) && *x18 == (f[18] as u64) && *x19 == (f[19] as u16) && *x20 == (f[20] as u32),
        EM16::V22(x0, x1, x2, x3, x4, x5, x6, x7, x8, x9, x10, x11, x12, x13, x14, x15, x16, x17, x18, x19, x20, x21) => k == 6 && *x0 == (f[0] as u32) && *x1 == (f[1] as u8) && *x2 == (f[2] as u32) && *x3 == (f[3] as u16) && *x4 == (f[4] as u64) && *x5 == (f[5] & 1 == 1) && *x6 == (f[6] as u8) && *x7 == (f[7] as u64) && *x8 == (f[8] as u16) && *x9 == (f[9] as u32) && *x10 == (f[10] as u8) && *x11 == (f[11] as u32) && *x12 == (f[12] as u16) && *x13 == (f[13] as u64) && *x14 == (f[14] & 1 == 1) && *x15 == (f[15] as u8) && *x16 == (f[16] as u64) && *x17 == (f[17] as u16) && *x18 == (f[18] as u32) && *x19 == (f[19] as u8) && *x20 == (f[20] as u32) && *x21 == (f[21] as u16),
        EM16::V23(x0, x1, x2, x3, x4, x5, x6, x7, x8, x9, x10, x11, x12, x13, x14, x15, x16, x17, x18, x19, x20, x21, x22) => k >= 7 && *x0 == (f[0] as u32) && *x1 == (f[1] as u16) && *x2 == (f[2] as u64) && *x3 == (f[3] & 1 == 1) && *x4 == (f[4] as u8) && *x5 == (f[5] as u64) && *x6 == (f[6] as u16) && *x7 == (f[7] as u32) && *x8 == (f[8] as u8) && *x9 == (f[9] as u32) && *x10 == (f[10] as u16) && *x11 == (f[11] as u64) && *x12 == (f[12] & 1 == 1) && *x13 == (f[13] as u8) && *x14 == (f[14] as u64) && *x15 == (f[15] as u16) && *x16 == (f[16] as u32) && *x17 == (f[17] as u8) && *x18 == (f[18] as u32) && *x19 == (f[19] as u16) && *x20 == (f[20] as u64) && *x21 == (f[21] & 1 == 1) && *x22 == (f[22] as u8),
    }
}

tagged_box! {
    pub struct CM24, pub enum EM24 {
        V24(u64, bool, u8, u64, u16, u32, u8, u32, u16, u64, bool, u8, u64, u16, u32, u8, u32, u16, u64, bool, u8, u64, u16, u32),
        V25(u8, u64, u16, u32, u8, u32, u16, u64, bool, u8, u64, u16, u32, u8, u32, u16, u64, bool, u8, u64, u16, u32, u8, u32, u16),
        V26(u16, u32, u8, u32, u16, u64, bool, u8, u64, u16, u32, u8, u32, u16, u64, bool, u8, u64, u16, u32, u8, u32, u16, u64, bool, u8),
        V27(u8, u32, u16, u64, bool, u8, u64, u16, u32, u8, u32, u16, u64, bool, u8, u64, u16, u32, u8, u32, u16, u64, bool, u8, u64, u16, u32),
        V28(u16, u64, bool, u8, u64, u16, u32, u8, u32, u16, u64, bool, u8, u64, u16, u32, u8, u32, u16, u64, bool, u8, u64, u16, u32, u8, u32, u16),
        V29(bool, u8, u64, u16, u32, u8, u32, u16, u64, bool, u8, u64, u16, u32, u8, u32, u16, u64, bool, u8, u64, u16, u32, u8, u32, u16, u64, bool, u8),
        V30(u64, u16, u32, u8, u32, u16, u64, bool, u8, u64, u16, u32, u8, u32, u16, u64, bool, u8, u64, u16, u32, u8, u32, u16, u64, bool, u8, u64, u16, u32),
        V31(u32, u8, u32, u16, u64, bool, u8, u64, u16, u32, u8, u32, u16, u64, bool, u8, u64, u16, u32, u8, u32, u16, u64, bool, u8, u64, u16, u32, u8, u32, u16),
        V32(u32, u16, u64, bool, u8, u64, u16, u32, u8, u32, u16, u64, bool, u8, u64, u16, u32, u8, u32, u16, u64, bool, u8, u64, u16, u32, u8, u32, u16, u64, bool, u8),
    }
}
fn is_m24(k: u8, e: &EM24, f: &[u64; 32]) -> bool {
    match e {
        EM24::V24(x0, x1, x2, x3, x4, x5, x6, x7, x8, x9, x10, x11, x12, x13, x14, x15, x16, x17, x18, x19, x20, x21, x22, x23) => k == 0 && *x0 == (f[0] as u64) && *x1 == (f[1] & 1 == 1) && *x2 == (f[2] as u8) && *x3 == (f[3] as u64) && *x4 == (f[4] as u16) && *x5 == (f[5] as u32) && *x6 == (f[6] as u8) && *x7 == (f[7] as u32) && *x8 == (f[8] as u16) && *x9 == (f[9] as u64) && *x10 == (f[10] & 1 == 1) && *x11 == (f[11] as u8) && *x12 == (f[12] as u64) && *x13 == (f[13] as u16) && *x14 == (f[14] as u32) && *x15 == (f[15] as u8) && *x16 == (f[16] as u32) && *x17 == (f[17] as u16) && *x18 == (f[18] as u64) && *x19 == (f[19] & 1 == 1) && *x20 == (f[20] as u8) && *x21 == (f[21] as u64) && *x22 == (f[22] as u16) && *x23 == (f[23] as u32),
        EM24::V25(x0, x1, x2, x3, x4, x5, x6, x7, x8, x9, x10, x11, x12, x13, x14, x15, x16, x17, x18, x19, x20, x21, x22, x23, x24) => k == 1 && *x0 == (f[0] as u8) && *x1 == (f[1] as u64) && *x2 == (f[2] as u16) && *x3 == (f[3] as u32) && *x4 == (f[4] as u8) && *x5 == (f[5] as u32) && *x6 == (f[6] as u16) && *x7 == (f[7] as u64) && *x8 == (f[8] & 1 == 1) && *x9 == (f[9] as u8) && *x10 == (f[10] as u64) && *x11 == (f[11] as u16) && *x12 == (f[12] as u32) && *x13 == (f[13] as u8) && *x14 == (f[14] as u32) && *x15 == (f[15] as u16) && *x16 == (f[16] as u64) && *x17 == (f[17] & 1 == 1) && *x18 == (f[18] as u8) && *x19 == (f[19] as u64) && *x20 == (f[20] as u16) && *x21 == (f[21] as u32) && *x22 == (f[22] as u8) && *x23 == (f[23] as u32) && *x24 == (f[24] as u16),
        EM24::V26(x0, x1, x2, x3, x4, x5, x6, x7, x8, x9, x10, x11, x12, x13, x14, x15, x16, x17, x18, x19, x20, x21, x22, x23, x24, x25) => k == 2 && *x0 == (f[0] as u16) && *x1 == (f[1] as u32) && *x2 == (f[2] as u8) && *x3 == (f[3] as u32) && *x4 == (f[4] as u16) && *x5 == (f[5] as u64) && *x6 == (f[6] & 1 == 1) && *x7 == (f[7] as u8) && *x8 == (f[8] as u64) && *x9 == (f[9] as u16) && *x10 == (f[10] as u32) && *x11 == (f[11] as u8) && *x12 == (f[12] as u32) && *x13 == (f[13] as u16) && *x14 == (f[14] as u64) && *x15 == (f[15] & 1 == 1) && *x16 == (f[16] as u8) && *x17 == (f[17] as u64) && *x18 == (f[18] as u16) && *x19 == (f[19] as u32) && *x20 == (f[20] as u8) && *x21 == (f[21] as u32) && *x22 == (f[22] as u16) && *x23 == (f[23] as u64) && *x24 == (f[24] & 1 == 1) && *x25 == (f[25] as u8),
        EM24::V27(x0, x1, x2, x3, x4, x5, x6, x7, x8, x9, x10, x11, x12, x13, x14, x15, x16, x17, x18, x19, x20, x21, x22, x23, x24, x25, x26) => k == 3 && *x0 == (f[0] as u8) && *x1 == (f[1] as u32) && *x2 == (f[2] as u16) && *x3 == (f[3] as u64) && *x4 == (f[4] & 1 == 1) && *x5 == (f[5] as u8) && *x6 == (f[6] as u64) && *x7 == (f[7] as u16) && *x8 == (f[8] as u32) && *x9 == (f[9] as u8) && *x10 == (f[10] as u32) && *x11 == (f[11] as u16) && *x12 == (f[12] as u64) && *x13 == (f[13] & 1 == 1) && *x14 == (f[14] as u8) && *x15 == (f[15] as u64) && *x16 == (f[16] as u16) && *x17 == (f[17] as u32) && *x18 == (f[18] as u8) && *x19 == (f[19] as u32) && *x20 == (f[20] as u16) && *x21 == (f[21] as u64) && *x22 == (f[22] & 1 == 1) && *x23 == (f[23] as u8) && *x24 == (f[24] as u64) && *x25 == (f[25] as u16) && *x26 == (f[26] as u32),
        EM24::V28(x0, x1, x2, x3, x4, x5, x6, x7, x8, x9, x10, x11, x12, x13, x14, x15, x16, x17, x18, x19, x20, x21, x22, x23, x24, x25, x26, x27) => k == 4 && *x0 == (f[0] as u16) && *x1 == (f[1] as u64) && *x2 == (f[2] & 1 == 1) && *x3 == (f[3] as u8) && *x4 == (f[4] as u64) && *x5 == (f[5] as u16) && *x6 == (f[6] as u32) && *x7 == (f[7] as u8) && *x8 == (f[8] as u32) && *x9 == (f[9] as u16) && *x10 == (f[10] as u64) && *x11 == (f[11] & 1 == 1) && *x12 == (f[12] as u8) && *x13 == (f[13] as u64) && *x14 == (f[14] as u16) && *x15 == (f[15] as u32) && *x16 == (f[16] as u8) && *x17 == (f[17] as u32) && *x18 == (f[18] as u16) && *x19 == (f[19] as u64) && *x20 == (f[20] & 1 == 1) && *x21 == (f[21] as u8) && *x22 == (f[22] as u64) && *x23 == (f[23] as u16) && *x24 == (f[24] as u32) && *x25 == (f[25] as u8) && *x26 == (f[26] as u32) && *x27 == (f[27] as u16),
        EM24::V29(x0, x1, x2, x3, x4, x5, x6, x7, x8, x9, x10, x11, x12, x13, x14, x15, x16, x17, x18, x19, x20, x21, x22, x23, x24, x25, x26, x27, x28) => k == 5 && *x0 == (f[0] & 1 == 1) && *x1 == (f[1] as u8) && *x2 == (f[2] as u64) && *x3 == (f[3] as u16) && *x4 == (f[4] as u32) && *x5 == (f[5] as u8) && *x6 == (f[6] as u32) && *x7 == (f[7] as u16) && *x8 == (f[8] as u64) && *x9 == (f[9] & 1 == 1) && *x10 == (f[10] as u8) && *x11 == (f[11] as u64) && *x12 == (f[12] as u16) && *x13 == (f[13] as u32) && *x14 == (f[14] as u8) && *x15 == (f[15] as u32) && *x16 == (f[16] as u16) && *x17 == (f[17] as u64) && *x18 == (f[18] & 1 == 1) && *x19 == (f[19] as u8) && *x20 == (f[20] as u64) && *x21 == (f[21] as u16) && *x22 == (f[22] as u32) && *x23 == (f[23] as u8) && *x24 == (f[24] as u32) && *x25 == (f[25] as u16) && *x26 == (f[26] as u64) && *x27 == (f[27] & 1 == 1) && *x28 == (f[28] as u8),
        EM24::V30(x0, x1, x2, x3, x4, x5, x6, x7, x8, x9, x10, x11, x12, x13, x14, x15, x16, x17, x18, x19, x20, x21, x22, x23, x24, x25, x26, x27, x28, x29) => k == 6 && *x0 == (f[0] as u64) && *x1 == (f[1] as u16) && *x2 == (f[2] as u32) && *x3 == (f[3] as u8) && *x4 == (f[4] as u32) && *x5 == (f[5] as u16) && *x6 == (f[6] as u64) && *x7 == (f[7] & 1 == 1) && *x8 == (f[8] as u8) && *x9 == (f[9] as u64) && *x10 == (f[10] as u16) && *x11 == (f[11] as u32) && *x12 == (f[12] as u8) && *x13 == (f[13] as u32) && *x14 == (f[14] as u16) && *x15 == (f[15] as u64) && *x16 == (f[16] & 1 == 1) && *x17 == (f[17] as u8) && *x18 == (f[18] as u64) && *x19 == (f[19] as u16) && *x20 == (f[20] as u32) && *x21 == (f[21] as u8) && *x22 == (f[22] as u32) && *x23 == (f[23] as u16) && *x24 == (f[24] as u64) && *x25 == (f[25] & 1 == 1) && *x26 == (f[26] as u8) && *x27 == (f[27] as u64) && *x28 == (f[28] as u16) && *x29 == (f[29] as u32),
        EM24::V31(x0, x1, x2, x3, x4, x5, x6, x7, x8, x9, x10, x11, x12, x13, x14, x15, x16, x17, x18, x19, x20, x21, x22, x23, x24, x25, x26, x27, x28, x29, x30) => k == 7 && *x0 == (f[0] as u32) && *x1 == (f[1] as u8) && *x2 == (f[2] as u32) && *x3 == (f[3] as u16) && *x4 == (f[4] as u64) && *x5 == (f[5] & 1 == 1) && *x6 == (f[6] as u8) && *x7 == (f[7] as u64) && *x8 == (f[8] as u16) && *x9 == (f[9] as u32) && *x10 == (f[10] as u8) && *x11 == (f[11] as u32) && *x12 == (f[12] as u16) && *x13 == (f[13] as u64) && *x14 == (f[14] & 1 == 1) && *x15 == (f[15] as u8) && *x16 == (f[16] as u64) && *x17 == (f[17] as u16) && *x18 == (f[18] as u32) && *x19 == (f[19] as u8) && *x20 == (f[20] as u32) && *x21 == (f[21] as u16) && *x22 == (f[22] as u64) && *x23 == (f[23] & 1 == 1) && *x24 == (f[24] as u8) && *x25 == (f[25] as u64) && *x26 == (f[26] as u16) && *x27 == (f[27] as u32) && *x28 == (f[28] as u8) && *x29 == (f[29] as u32) && *x30 == (f[30] as u16),
        EM24::V32(x0, x1, x2, x3, x4, x5, x6, x7, x8, x9, x10, x11, x12, x13, x14, x15, x16, x17, x18, x19, x20, x21, x22, x23, x24, x25, x26, x27, x28, x29, x30, x31) => k >= 8 && *x0 == (f[0] as u32) && *x1 == (f[1] as u16) && *x2 == (f[2] as u64) && *x3 == (f[3] & 1 == 1) && *x4 == (f[4] as u8) && *x5 == (f[5] as u64) && *x6 == (f[6] as u16) && *x7 == (f[7] as u32) && *x8 == (f[8] as u8) && *x9 == (f[9] as u32) && *x10 == (f[10] as u16) && *x11 == (f[11] as u64) && *x12 == (f[12] & 1 == 1) && *x13 == (f[13] as u8) && *x14 == (f[14] as u64) && *x15 == (f[15] as u16) && *x16 == (f[16] as u32) && *x17 == (f[17] as u8) && *x18 == (f[18] as u32) && *x19 == (f[19] as u16) && *x20 == (f[20] as u64) && *x21 == (f[21] & 1 == 1) && *x22 == (f[22] as u8) && *x23 == (f[23] as u64) && *x24 == (f[24] as u16) && *x25 == (f[25] as u32) && *x26 == (f[26] as u8) && *x27 == (f[27] as u32) && *x28 == (f[28] as u16) && *x29 == (f[29] as u64) && *x30 == (f[30] & 1 == 1) && *x31 == (f[31] as u8),
    }
}

harnesses! {
    fn c12_arity_m0() {
        let k = nd::u8_();
        nd::assume(k < 8 && k as u64 <= MAXD);
        let mut f = [0u64; 32];
        let mut i = 0;
        while i < 32 { f[i] = nd::u64_(); i += 1; }
        let c = match k {
            0 => CM0::from(()),
            1 => CM0::from(f[0] as u16),
            2 => CM0::from((f[0] & 1 == 1, f[1] as u8)),
            3 => CM0::from((f[0] as u64, f[1] as u16, f[2] as u32)),
            4 => CM0::from((f[0] as u32, f[1] as u8, f[2] as u32, f[3] as u16)),
            5 => CM0::from((f[0] as u32, f[1] as u16, f[2] as u64, f[3] & 1 == 1, f[4] as u8)),
            6 => CM0::from((f[0] as u64, f[1] & 1 == 1, f[2] as u8, f[3] as u64, f[4] as u16, f[5] as u32)),
            _ => CM0::from((f[0] as u8, f[1] as u64, f[2] as u16, f[3] as u32, f[4] as u8, f[5] as u32, f[6] as u16)),
        };
        let w = unsafe { core::mem::transmute_copy::<CM0, u64>(&c) };
        check!(w >> W == k as u64, "the tag of the variant that declares the payload");
        check!(is_m0(k, &c.into_inner(), &f), "the fields in declaration order");
        reach!("end");
    }
    fn c12_arity_m8() {
        let k = nd::u8_();
        nd::assume(k < 8 && k as u64 <= MAXD);
        let mut f = [0u64; 32];
        let mut i = 0;
        while i < 32 { f[i] = nd::u64_(); i += 1; }
        let c = match k {
            0 => CM8::from((f[0] as u16, f[1] as u32, f[2] as u8, f[3] as u32, f[4] as u16, f[5] as u64, f[6] & 1 == 1, f[7] as u8)),
            1 => CM8::from((f[0] as u8, f[1] as u32, f[2] as u16, f[3] as u64, f[4] & 1 == 1, f[5] as u8, f[6] as u64, f[7] as u16, f[8] as u32)),
            2 => CM8::from((f[0] as u16, f[1] as u64, f[2] & 1 == 1, f[3] as u8, f[4] as u64, f[5] as u16, f[6] as u32, f[7] as u8, f[8] as u32, f[9] as u16)),
            3 => CM8::from((f[0] & 1 == 1, f[1] as u8, f[2] as u64, f[3] as u16, f[4] as u32, f[5] as u8, f[6] as u32, f[7] as u16, f[8] as u64, f[9] & 1 == 1, f[10] as u8)),
            4 => CM8::from((f[0] as u64, f[1] as u16, f[2] as u32, f[3] as u8, f[4] as u32, f[5] as u16, f[6] as u64, f[7] & 1 == 1, f[8] as u8, f[9] as u64, f[10] as u16, f[11] as u32)),
            5 => CM8::from((f[0] as u32, f[1] as u8, f[2] as u32, f[3] as u16, f[4] as u64, f[5] & 1 == 1, f[6] as u8, f[7] as u64, f[8] as u16, f[9] as u32, f[10] as u8, f[11] as u32, f[12] as u16)),
            6 => CM8::from((f[0] as u32, f[1] as u16, f[2] as u64, f[3] & 1 == 1, f[4] as u8, f[5] as u64, f[6] as u16, f[7] as u32, f[8] as u8, f[9] as u32, f[10] as u16, f[11] as u64, f[12] & 1 == 1, f[13] as u8)),
            _ => CM8::from((f[0] as u64, f[1] & 1 == 1, f[2] as u8, f[3] as u64, f[4] as u16, f[5] as u32, f[6] as u8, f[7] as u32, f[8] as u16, f[9] as u64, f[10] & 1 == 1, f[11] as u8, f[12] as u64, f[13] as u16, f[14] as u32)),
        };
        let w = unsafe { core::mem::transmute_copy::<CM8, u64>(&c) };
        check!(w >> W == k as u64, "the tag of the variant that declares the payload");
        check!(is_m8(k, &c.into_inner(), &f), "the fields in declaration order");
        reach!("end");
    }
    fn c12_arity_m16() {
        let k = nd::u8_();
        nd::assume(k < 8 && k as u64 <= MAXD);
        let mut f = [0u64; 32];
        let mut i = 0;
        while i < 32 { f[i] = nd::u64_(); i += 1; }
        let c = match k {
            0 => CM16::from((f[0] as u8, f[1] as u64, f[2] as u16, f[3] as u32, f[4] as u8, f[5] as u32, f[6] as u16, f[7] as u64, f[8] & 1 == 1, f[9] as u8, f[10] as u64, f[11] as u16, f[12] as u32, f[13] as u8, f[14] as u32, f[15] as u16)),
            1 => CM16::from((f[0] as u16, f[1] as u32, f[2] as u8, f[3] as u32, f[4] as u16, f[5] as u64, f[6] & 1 == 1, f[7] as u8, f[8] as u64, f[9] as u16, f[10] as u32, f[11] as u8, f[12] as u32, f[13] as u16, f[14] as u64, f[15] & 1 == 1, f[16] as u8)),
            2 => CM16::from((f[0] as u8, f[1] as u32, f[2] as u16, f[3] as u64, f[4] & 1 == 1, f[5] as u8, f[6] as u64, f[7] as u16, f[8] as u32, f[9] as u8, f[10] as u32, f[11] as u16, f[12] as u64, f[13] & 1 == 1, f[14] as u8, f[15] as u64, f[16] as u16, f[17] as u32)),
            3 => CM16::from((f[0] as u16, f[1] as u64, f[2] & 1 == 1, f[3] as u8, f[4] as u64, f[5] as u16, f[6] as u32, f[7] as u8, f[8] as u32, f[9] as u16, f[10] as u64, f[11] & 1 == 1, f[12] as u8, f[13] as u64, f[14] as u16, f[15] as u32, f[16] as u8, f[17] as u32, f[18] as u16)),
            4 => CM16::from((f[0] & 1 == 1, f[1] as u8, f[2] as u64, f[3] as u16, f[4] as u32, f[5] as u8, f[6] as u32, f[7] as u16, f[8] as u64, f[9] & 1 == 1, f[10] as u8, f[11] as u64, f[12] as u16, f[13] as u32, f[14] as u8, f[15] as u32, f[16] as u16, f[17] as u64, f[18] & 1 == 1, f[19] as u8)),
            5 => CM16::from((f[0] as u64, f[1] as u16, f[2] as u32, f[3] as u8, f[4] as u32, f[5] as u16, f[6] as u64, f[7] & 1 == 1, f[8] as u8, f[9] as u64, f[10] as u16, f[11] as u32, f[12] as u8, f[13] as u32, f[14] as u16, f[15] as u64, f[16] & 1 == 1, f[17] as u8, f[18] as u64, f[19] as u16, f[20] as u32)),
            6 => CM16::from((f[0] as u32, f[1] as u8, f[2] as u32, f[3] as u16, f[4] as u64, f[5] & 1 == 1, f[6] as u8, f[7] as u64, f[8] as u16, f[9] as u32, f[10] as u8, f[11] as u32, f[12] as u16, f[13] as u64, f[14] & 1 == 1, f[15] as u8, f[16] as u64, f[17] as u16, f[18] as u32, f[19] as u8, f[20] as u32, f[21] as u16)),
            _ => CM16::from((f[0] as u32, f[1] as u16, f[2] as u64, f[3] & 1 == 1, f[4] as u8, f[5] as u64, f[6] as u16, f[7] as u32, f[8] as u8, f[9] as u32, f[10] as u16, f[11] as u64, f[12] & 1 == 1, f[13] as u8, f[14] as u64, f[15] as u16, f[16] as u32, f[17] as u8, f[18] as u32, f[19] as u16, f[20] as u64, f[21] & 1 == 1, f[22] as u8)),
        };
        let w = unsafe { core::mem::transmute_copy::<CM16, u64>(&c) };
        check!(w >> W == k as u64, "the tag of the variant that declares the payload");
        check!(is_m16(k, &c.into_inner(), &f), "the fields in declaration order");
        reach!("end");
    }
    fn c12_arity_m24() {
        let k = nd::u8_();
        nd::assume(k < 9 && k as u64 <= MAXD);
        let mut f = [0u64; 32];
        let mut i = 0;
        while i < 32 { f[i] = nd::u64_(); i += 1; }
        let c = match k {
            0 => CM24::from((f[0] as u64, f[1] & 1 == 1, f[2] as u8, f[3] as u64, f[4] as u16, f[5] as u32, f[6] as u8, f[7] as u32, f[8] as u16, f[9] as u64, f[10] & 1 == 1, f[11] as u8, f[12] as u64, f[13] as u16, f[14] as u32, f[15] as u8, f[16] as u32, f[17] as u16, f[18] as u64, f[19] & 1 == 1, f[20] as u8, f[21] as u64, f[22] as u16, f[23] as u32)),
            1 => CM24::from((f[0] as u8, f[1] as u64, f[2] as u16, f[3] as u32, f[4] as u8, f[5] as u32, f[6] as u16, f[7] as u64, f[8] & 1 == 1, f[9] as u8, f[10] as u64, f[11] as u16, f[12] as u32, f[13] as u8, f[14] as u32, f[15] as u16, f[16] as u64, f[17] & 1 == 1, f[18] as u8, f[19] as u64, f[20] as u16, f[21] as u32, f[22] as u8, f[23] as u32, f[24] as u16)),
            2 => CM24::from((f[0] as u16, f[1] as u32, f[2] as u8, f[3] as u32, f[4] as u16, f[5] as u64, f[6] & 1 == 1, f[7] as u8, f[8] as u64, f[9] as u16, f[10] as u32, f[11] as u8, f[12] as u32, f[13] as u16, f[14] as u64, f[15] & 1 == 1, f[16] as u8, f[17] as u64, f[18] as u16, f[19] as u32, f[20] as u8, f[21] as u32, f[22] as u16, f[23] as u64, f[24] & 1 == 1, f[25] as u8)),
            3 => CM24::from((f[0] as u8, f[1] as u32, f[2] as u16, f[3] as u64, f[4] & 1 == 1, f[5] as u8, f[6] as u64, f[7] as u16, f[8] as u32, f[9] as u8, f[10] as u32, f[11] as u16, f[12] as u64, f[13] & 1 == 1, f[14] as u8, f[15] as u64, f[16] as u16, f[17] as u32, f[18] as u8, f[19] as u32, f[20] as u16, f[21] as u64, f[22] & 1 == 1, f[23] as u8, f[24] as u64, f[25] as u16, f[26] as u32)),
            4 => CM24::from((f[0] as u16, f[1] as u64, f[2] & 1 == 1, f[3] as u8, f[4] as u64, f[5] as u16, f[6] as u32, f[7] as u8, f[8] as u32, f[9] as u16, f[10] as u64, f[11] & 1 == 1, f[12] as u8, f[13] as u64, f[14] as u16, f[15] as u32, f[16] as u8, f[17] as u32, f[18] as u16, f[19] as u64, f[20] & 1 == 1, f[21] as u8, f[22] as u64, f[23] as u16, f[24] as u32, f[25] as u8, f[26] as u32, f[27] as u16)),
            5 => CM24::from((f[0] & 1 == 1, f[1] as u8, f[2] as u64, f[3] as u16, f[4] as u32, f[5] as u8, f[6] as u32, f[7] as u16, f[8] as u64, f[9] & 1 == 1, f[10] as u8, f[11] as u64, f[12] as u16, f[13] as u32, f[14] as u8, f[15] as u32, f[16] as u16, f[17] as u64, f[18] & 1 == 1, f[19] as u8, f[20] as u64, f[21] as u16, f[22] as u32, f[23] as u8, f[24] as u32, f[25] as u16, f[26] as u64, f[27] & 1 == 1, f[28] as u8)),
            6 => CM24::from((f[0] as u64, f[1] as u16, f[2] as u32, f[3] as u8, f[4] as u32, f[5] as u16, f[6] as u64, f[7] & 1 == 1, f[8] as u8, f[9] as u64, f[10] as u16, f[11] as u32, f[12] as u8, f[13] as u32, f[14] as u16, f[15] as u64, f[16] & 1 == 1, f[17] as u8, f[18] as u64, f[19] as u16, f[20] as u32, f[21] as u8, f[22] as u32, f[23] as u16, f[24] as u64, f[25] & 1 == 1, f[26] as u8, f[27] as u64, f[28] as u16, f[29] as u32)),
            7 => CM24::from((f[0] as u32, f[1] as u8, f[2] as u32, f[3] as u16, f[4] as u64, f[5] & 1 == 1, f[6] as u8, f[7] as u64, f[8] as u16, f[9] as u32, f[10] as u8, f[11] as u32, f[12] as u16, f[13] as u64, f[14] & 1 == 1, f[15] as u8, f[16] as u64, f[17] as u16, f[18] as u32, f[19] as u8, f[20] as u32, f[21] as u16, f[22] as u64, f[23] & 1 == 1, f[24] as u8, f[25] as u64, f[26] as u16, f[27] as u32, f[28] as u8, f[29] as u32, f[30] as u16)),
            _ => CM24::from((f[0] as u32, f[1] as u16, f[2] as u64, f[3] & 1 == 1, f[4] as u8, f[5] as u64, f[6] as u16, f[7] as u32, f[8] as u8, f[9] as u32, f[10] as u16, f[11] as u64, f[12] & 1 == 1, f[13] as u8, f[14] as u64, f[15] as u16, f[16] as u32, f[17] as u8, f[18] as u32, f[19] as u16, f[20] as u64, f[21] & 1 == 1, f[22] as u8, f[23] as u64, f[24] as u16, f[25] as u32, f[26] as u8, f[27] as u32, f[28] as u16, f[29] as u64, f[30] & 1 == 1, f[31] as u8)),
        };
        let w = unsafe { core::mem::transmute_copy::<CM24, u64>(&c) };
        check!(w >> W == k as u64, "the tag of the variant that declares the payload");
        check!(is_m24(k, &c.into_inner(), &f), "the fields in declaration order");
        reach!("end");
    }
}
