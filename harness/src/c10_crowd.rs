//! C10 on an enum with more variants than a byte counts: each variant has its own tag, or is refused
use crate::nd;
use crate::spec::*;
use tagged_box::{TaggableContainer, TaggableInner};

pub const COUNT: u16 = 300;

tagged_box! {
    #[derive(Clone)]
    struct Crowd, enum CrowdE {
        V0 { x: u32, }, V1 { a: u8, x: u32 }, V2, V3 { x: u32, }, V4 { a: u8, x: u32 }, V5,
        V6 { x: u32, }, V7 { a: u8, x: u32 }, V8, V9 { x: u32, }, V10 { a: u8, x: u32 }, V11,
        V12 { x: u32, }, V13 { a: u8, x: u32 }, V14, V15 { x: u32, }, V16 { a: u8, x: u32 }, V17,
        V18 { x: u32, }, V19 { a: u8, x: u32 }, V20, V21 { x: u32, }, V22 { a: u8, x: u32 }, V23,
        V24 { x: u32, }, V25 { a: u8, x: u32 }, V26, V27 { x: u32, }, V28 { a: u8, x: u32 }, V29,
        V30 { x: u32, }, V31 { a: u8, x: u32 }, V32, V33 { x: u32, }, V34 { a: u8, x: u32 }, V35,
        V36 { x: u32, }, V37 { a: u8, x: u32 }, V38, V39 { x: u32, }, V40 { a: u8, x: u32 }, V41,
        V42 { x: u32, }, V43 { a: u8, x: u32 }, V44, V45 { x: u32, }, V46 { a: u8, x: u32 }, V47,
        V48 { x: u32, }, V49 { a: u8, x: u32 }, V50, V51 { x: u32, }, V52 { a: u8, x: u32 }, V53,
        V54 { x: u32, }, V55 { a: u8, x: u32 }, V56, V57 { x: u32, }, V58 { a: u8, x: u32 }, V59,
        V60 { x: u32, }, V61 { a: u8, x: u32 }, V62, V63 { x: u32, }, V64 { a: u8, x: u32 }, V65,
        V66 { x: u32, }, V67 { a: u8, x: u32 }, V68, V69 { x: u32, }, V70 { a: u8, x: u32 }, V71,
        V72 { x: u32, }, V73 { a: u8, x: u32 }, V74, V75 { x: u32, }, V76 { a: u8, x: u32 }, V77,
        V78 { x: u32, }, V79 { a: u8, x: u32 }, V80, V81 { x: u32, }, V82 { a: u8, x: u32 }, V83,
        V84 { x: u32, }, V85 { a: u8, x: u32 }, V86, V87 { x: u32, }, V88 { a: u8, x: u32 }, V89,
        V90 { x: u32, }, V91 { a: u8, x: u32 }, V92, V93 { x: u32, }, V94 { a: u8, x: u32 }, V95,
        V96 { x: u32, }, V97 { a: u8, x: u32 }, V98, V99 { x: u32, }, V100 { a: u8, x: u32 }, V101,
        V102 { x: u32, }, V103 { a: u8, x: u32 }, V104, V105 { x: u32, }, V106 { a: u8, x: u32 }, V107,
        V108 { x: u32, }, V109 { a: u8, x: u32 }, V110, V111 { x: u32, }, V112 { a: u8, x: u32 }, V113,
        V114 { x: u32, }, V115 { a: u8, x: u32 }, V116, V117 { x: u32, }, V118 { a: u8, x: u32 }, V119,
        V120 { x: u32, }, V121 { a: u8, x: u32 }, V122, V123 { x: u32, }, V124 { a: u8, x: u32 }, V125,
        V126 { x: u32, }, V127 { a: u8, x: u32 }, V128, V129 { x: u32, }, V130 { a: u8, x: u32 }, V131,
        V132 { x: u32, }, V133 { a: u8, x: u32 }, V134, V135 { x: u32, }, V136 { a: u8, x: u32 }, V137,
        V138 { x: u32, }, V139 { a: u8, x: u32 }, V140, V141 { x: u32, }, V142 { a: u8, x: u32 }, V143,
        V144 { x: u32, }, V145 { a: u8, x: u32 }, V146, V147 { x: u32, }, V148 { a: u8, x: u32 }, V149,
        V150 { x: u32, }, V151 { a: u8, x: u32 }, V152, V153 { x: u32, }, V154 { a: u8, x: u32 }, V155,
        V156 { x: u32, }, V157 { a: u8, x: u32 }, V158, V159 { x: u32, }, V160 { a: u8, x: u32 }, V161,
        V162 { x: u32, }, V163 { a: u8, x: u32 }, V164, V165 { x: u32, }, V166 { a: u8, x: u32 }, V167,
        V168 { x: u32, }, V169 { a: u8, x: u32 }, V170, V171 { x: u32, }, V172 { a: u8, x: u32 }, V173,
        V174 { x: u32, }, V175 { a: u8, x: u32 }, V176, V177 { x: u32, }, V178 { a: u8, x: u32 }, V179,
        V180 { x: u32, }, V181 { a: u8, x: u32 }, V182, V183 { x: u32, }, V184 { a: u8, x: u32 }, V185,
        V186 { x: u32, }, V187 { a: u8, x: u32 }, V188, V189 { x: u32, }, V190 { a: u8, x: u32 }, V191,
        V192 { x: u32, }, V193 { a: u8, x: u32 }, V194, V195 { x: u32, }, V196 { a: u8, x: u32 }, V197,
        V198 { x: u32, }, V199 { a: u8, x: u32 }, V200, V201 { x: u32, }, V202 { a: u8, x: u32 }, V203,
        V204 { x: u32, }, V205 { a: u8, x: u32 }, V206, V207 { x: u32, }, V208 { a: u8, x: u32 }, V209,
        V210 { x: u32, }, V211 { a: u8, x: u32 }, V212, V213 { x: u32, }, V214 { a: u8, x: u32 }, V215,
        V216 { x: u32, }, V217 { a: u8, x: u32 }, V218, V219 { x: u32, }, V220 { a: u8, x: u32 }, V221,
        V222 { x: u32, }, V223 { a: u8, x: u32 }, V224, V225 { x: u32, }, V226 { a: u8, x: u32 }, V227,
        V228 { x: u32, }, V229 { a: u8, x: u32 }, V230, V231 { x: u32, }, V232 { a: u8, x: u32 }, V233,
        V234 { x: u32, }, V235 { a: u8, x: u32 }, V236, V237 { x: u32, }, V238 { a: u8, x: u32 }, V239,
        V240 { x: u32, }, V241 { a: u8, x: u32 }, V242, V243 { x: u32, }, V244 { a: u8, x: u32 }, V245,
        V246 { x: u32, }, V247 { a: u8, x: u32 }, V248, V249 { x: u32, }, V250 { a: u8, x: u32 }, V251,
        V252 { x: u32, }, V253 { a: u8, x: u32 }, V254, V255 { x: u32, }, V256 { a: u8, x: u32 }, V257,
        V258 { x: u32, }, V259 { a: u8, x: u32 }, V260, V261 { x: u32, }, V262 { a: u8, x: u32 }, V263,
        V264 { x: u32, }, V265 { a: u8, x: u32 }, V266, V267 { x: u32, }, V268 { a: u8, x: u32 }, V269,
        V270 { x: u32, }, V271 { a: u8, x: u32 }, V272, V273 { x: u32, }, V274 { a: u8, x: u32 }, V275,
        V276 { x: u32, }, V277 { a: u8, x: u32 }, V278, V279 { x: u32, }, V280 { a: u8, x: u32 }, V281,
        V282 { x: u32, }, V283 { a: u8, x: u32 }, V284, V285 { x: u32, }, V286 { a: u8, x: u32 }, V287,
        V288 { x: u32, }, V289 { a: u8, x: u32 }, V290, V291 { x: u32, }, V292 { a: u8, x: u32 }, V293,
        V294 { x: u32, }, V295 { a: u8, x: u32 }, V296, V297 { x: u32, }, V298 { a: u8, x: u32 }, V299,
    }
}
fn make(i: u16, a: u8, x: u32) -> CrowdE {
    match i {
        0 => CrowdE::V0 { x },
        1 => CrowdE::V1 { a, x },
        2 => CrowdE::V2,
        3 => CrowdE::V3 { x },
        4 => CrowdE::V4 { a, x },
        5 => CrowdE::V5,
        6 => CrowdE::V6 { x },
        7 => CrowdE::V7 { a, x },
        8 => CrowdE::V8,
        9 => CrowdE::V9 { x },
        10 => CrowdE::V10 { a, x },
        11 => CrowdE::V11,
        12 => CrowdE::V12 { x },
        13 => CrowdE::V13 { a, x },
        14 => CrowdE::V14,
        15 => CrowdE::V15 { x },
        16 => CrowdE::V16 { a, x },
        17 => CrowdE::V17,
        18 => CrowdE::V18 { x },
        19 => CrowdE::V19 { a, x },
        20 => CrowdE::V20,
        21 => CrowdE::V21 { x },
        22 => CrowdE::V22 { a, x },
        23 => CrowdE::V23,
        24 => CrowdE::V24 { x },
        25 => CrowdE::V25 { a, x },
        26 => CrowdE::V26,
        27 => CrowdE::V27 { x },
        28 => CrowdE::V28 { a, x },
        29 => CrowdE::V29,
        30 => CrowdE::V30 { x },
        31 => CrowdE::V31 { a, x },
        32 => CrowdE::V32,
        33 => CrowdE::V33 { x },
        34 => CrowdE::V34 { a, x },
        35 => CrowdE::V35,
        36 => CrowdE::V36 { x },
        37 => CrowdE::V37 { a, x },
        38 => CrowdE::V38,
        39 => CrowdE::V39 { x },
        40 => CrowdE::V40 { a, x },
        41 => CrowdE::V41,
        42 => CrowdE::V42 { x },
        43 => CrowdE::V43 { a, x },
        44 => CrowdE::V44,
        45 => CrowdE::V45 { x },
        46 => CrowdE::V46 { a, x },
        47 => CrowdE::V47,
        48 => CrowdE::V48 { x },
        49 => CrowdE::V49 { a, x },
        50 => CrowdE::V50,
        51 => CrowdE::V51 { x },
        52 => CrowdE::V52 { a, x },
        53 => CrowdE::V53,
        54 => CrowdE::V54 { x },
        55 => CrowdE::V55 { a, x },
        56 => CrowdE::V56,
        57 => CrowdE::V57 { x },
        58 => CrowdE::V58 { a, x },
        59 => CrowdE::V59,
        60 => CrowdE::V60 { x },
        61 => CrowdE::V61 { a, x },
        62 => CrowdE::V62,
        63 => CrowdE::V63 { x },
        64 => CrowdE::V64 { a, x },
        65 => CrowdE::V65,
        66 => CrowdE::V66 { x },
        67 => CrowdE::V67 { a, x },
        68 => CrowdE::V68,
        69 => CrowdE::V69 { x },
        70 => CrowdE::V70 { a, x },
        71 => CrowdE::V71,
        72 => CrowdE::V72 { x },
        73 => CrowdE::V73 { a, x },
        74 => CrowdE::V74,
        75 => CrowdE::V75 { x },
        76 => CrowdE::V76 { a, x },
        77 => CrowdE::V77,
        78 => CrowdE::V78 { x },
        79 => CrowdE::V79 { a, x },
        80 => CrowdE::V80,
        81 => CrowdE::V81 { x },
        82 => CrowdE::V82 { a, x },
        83 => CrowdE::V83,
        84 => CrowdE::V84 { x },
        85 => CrowdE::V85 { a, x },
        86 => CrowdE::V86,
        87 => CrowdE::V87 { x },
        88 => CrowdE::V88 { a, x },
        89 => CrowdE::V89,
        90 => CrowdE::V90 { x },
        91 => CrowdE::V91 { a, x },
        92 => CrowdE::V92,
        93 => CrowdE::V93 { x },
        94 => CrowdE::V94 { a, x },
        95 => CrowdE::V95,
        96 => CrowdE::V96 { x },
        97 => CrowdE::V97 { a, x },
        98 => CrowdE::V98,
        99 => CrowdE::V99 { x },
        100 => CrowdE::V100 { a, x },
        101 => CrowdE::V101,
        102 => CrowdE::V102 { x },
        103 => CrowdE::V103 { a, x },
        104 => CrowdE::V104,
        105 => CrowdE::V105 { x },
        106 => CrowdE::V106 { a, x },
        107 => CrowdE::V107,
        108 => CrowdE::V108 { x },
        109 => CrowdE::V109 { a, x },
        110 => CrowdE::V110,
        111 => CrowdE::V111 { x },
        112 => CrowdE::V112 { a, x },
        113 => CrowdE::V113,
        114 => CrowdE::V114 { x },
        115 => CrowdE::V115 { a, x },
        116 => CrowdE::V116,
        117 => CrowdE::V117 { x },
        118 => CrowdE::V118 { a, x },
        119 => CrowdE::V119,
        120 => CrowdE::V120 { x },
        121 => CrowdE::V121 { a, x },
        122 => CrowdE::V122,
        123 => CrowdE::V123 { x },
        124 => CrowdE::V124 { a, x },
        125 => CrowdE::V125,
        126 => CrowdE::V126 { x },
        127 => CrowdE::V127 { a, x },
        128 => CrowdE::V128,
        129 => CrowdE::V129 { x },
        130 => CrowdE::V130 { a, x },
        131 => CrowdE::V131,
        132 => CrowdE::V132 { x },
        133 => CrowdE::V133 { a, x },
        134 => CrowdE::V134,
        135 => CrowdE::V135 { x },
        136 => CrowdE::V136 { a, x },
        137 => CrowdE::V137,
        138 => CrowdE::V138 { x },
        139 => CrowdE::V139 { a, x },
        140 => CrowdE::V140,
        141 => CrowdE::V141 { x },
        142 => CrowdE::V142 { a, x },
        143 => CrowdE::V143,
        144 => CrowdE::V144 { x },
        145 => CrowdE::V145 { a, x },
        146 => CrowdE::V146,
        147 => CrowdE::V147 { x },
        148 => CrowdE::V148 { a, x },
        149 => CrowdE::V149,
        150 => CrowdE::V150 { x },
        151 => CrowdE::V151 { a, x },
        152 => CrowdE::V152,
        153 => CrowdE::V153 { x },
        154 => CrowdE::V154 { a, x },
        155 => CrowdE::V155,
        156 => CrowdE::V156 { x },
        157 => CrowdE::V157 { a, x },
        158 => CrowdE::V158,
        159 => CrowdE::V159 { x },
        160 => CrowdE::V160 { a, x },
        161 => CrowdE::V161,
        162 => CrowdE::V162 { x },
        163 => CrowdE::V163 { a, x },
        164 => CrowdE::V164,
        165 => CrowdE::V165 { x },
        166 => CrowdE::V166 { a, x },
        167 => CrowdE::V167,
        168 => CrowdE::V168 { x },
        169 => CrowdE::V169 { a, x },
        170 => CrowdE::V170,
        171 => CrowdE::V171 { x },
        172 => CrowdE::V172 { a, x },
        173 => CrowdE::V173,
        174 => CrowdE::V174 { x },
        175 => CrowdE::V175 { a, x },
        176 => CrowdE::V176,
        177 => CrowdE::V177 { x },
        178 => CrowdE::V178 { a, x },
        179 => CrowdE::V179,
        180 => CrowdE::V180 { x },
        181 => CrowdE::V181 { a, x },
        182 => CrowdE::V182,
        183 => CrowdE::V183 { x },
        184 => CrowdE::V184 { a, x },
        185 => CrowdE::V185,
        186 => CrowdE::V186 { x },
        187 => CrowdE::V187 { a, x },
        188 => CrowdE::V188,
        189 => CrowdE::V189 { x },
        190 => CrowdE::V190 { a, x },
        191 => CrowdE::V191,
        192 => CrowdE::V192 { x },
        193 => CrowdE::V193 { a, x },
        194 => CrowdE::V194,
        195 => CrowdE::V195 { x },
        196 => CrowdE::V196 { a, x },
        197 => CrowdE::V197,
        198 => CrowdE::V198 { x },
        199 => CrowdE::V199 { a, x },
        200 => CrowdE::V200,
        201 => CrowdE::V201 { x },
        202 => CrowdE::V202 { a, x },
        203 => CrowdE::V203,
        204 => CrowdE::V204 { x },
        205 => CrowdE::V205 { a, x },
        206 => CrowdE::V206,
        207 => CrowdE::V207 { x },
        208 => CrowdE::V208 { a, x },
        209 => CrowdE::V209,
        210 => CrowdE::V210 { x },
        211 => CrowdE::V211 { a, x },
        212 => CrowdE::V212,
        213 => CrowdE::V213 { x },
        214 => CrowdE::V214 { a, x },
        215 => CrowdE::V215,
        216 => CrowdE::V216 { x },
        217 => CrowdE::V217 { a, x },
        218 => CrowdE::V218,
        219 => CrowdE::V219 { x },
        220 => CrowdE::V220 { a, x },
        221 => CrowdE::V221,
        222 => CrowdE::V222 { x },
        223 => CrowdE::V223 { a, x },
        224 => CrowdE::V224,
        225 => CrowdE::V225 { x },
        226 => CrowdE::V226 { a, x },
        227 => CrowdE::V227,
        228 => CrowdE::V228 { x },
        229 => CrowdE::V229 { a, x },
        230 => CrowdE::V230,
        231 => CrowdE::V231 { x },
        232 => CrowdE::V232 { a, x },
        233 => CrowdE::V233,
        234 => CrowdE::V234 { x },
        235 => CrowdE::V235 { a, x },
        236 => CrowdE::V236,
        237 => CrowdE::V237 { x },
        238 => CrowdE::V238 { a, x },
        239 => CrowdE::V239,
        240 => CrowdE::V240 { x },
        241 => CrowdE::V241 { a, x },
        242 => CrowdE::V242,
        243 => CrowdE::V243 { x },
        244 => CrowdE::V244 { a, x },
        245 => CrowdE::V245,
        246 => CrowdE::V246 { x },
        247 => CrowdE::V247 { a, x },
        248 => CrowdE::V248,
        249 => CrowdE::V249 { x },
        250 => CrowdE::V250 { a, x },
        251 => CrowdE::V251,
        252 => CrowdE::V252 { x },
        253 => CrowdE::V253 { a, x },
        254 => CrowdE::V254,
        255 => CrowdE::V255 { x },
        256 => CrowdE::V256 { a, x },
        257 => CrowdE::V257,
        258 => CrowdE::V258 { x },
        259 => CrowdE::V259 { a, x },
        260 => CrowdE::V260,
        261 => CrowdE::V261 { x },
        262 => CrowdE::V262 { a, x },
        263 => CrowdE::V263,
        264 => CrowdE::V264 { x },
        265 => CrowdE::V265 { a, x },
        266 => CrowdE::V266,
        267 => CrowdE::V267 { x },
        268 => CrowdE::V268 { a, x },
        269 => CrowdE::V269,
        270 => CrowdE::V270 { x },
        271 => CrowdE::V271 { a, x },
        272 => CrowdE::V272,
        273 => CrowdE::V273 { x },
        274 => CrowdE::V274 { a, x },
        275 => CrowdE::V275,
        276 => CrowdE::V276 { x },
        277 => CrowdE::V277 { a, x },
        278 => CrowdE::V278,
        279 => CrowdE::V279 { x },
        280 => CrowdE::V280 { a, x },
        281 => CrowdE::V281,
        282 => CrowdE::V282 { x },
        283 => CrowdE::V283 { a, x },
        284 => CrowdE::V284,
        285 => CrowdE::V285 { x },
        286 => CrowdE::V286 { a, x },
        287 => CrowdE::V287,
        288 => CrowdE::V288 { x },
        289 => CrowdE::V289 { a, x },
        290 => CrowdE::V290,
        291 => CrowdE::V291 { x },
        292 => CrowdE::V292 { a, x },
        293 => CrowdE::V293,
        294 => CrowdE::V294 { x },
        295 => CrowdE::V295 { a, x },
        296 => CrowdE::V296,
        297 => CrowdE::V297 { x },
        298 => CrowdE::V298 { a, x },
        _ => CrowdE::V299,
    }
}
/// position in the declaration, data
fn desc(e: &CrowdE) -> (u64, u8, u32) {
    match e {
        CrowdE::V0 { x } => (0, 0, *x),
        CrowdE::V1 { a, x } => (1, *a, *x),
        CrowdE::V2 => (2, 0, 0),
        CrowdE::V3 { x } => (3, 0, *x),
        CrowdE::V4 { a, x } => (4, *a, *x),
        CrowdE::V5 => (5, 0, 0),
        CrowdE::V6 { x } => (6, 0, *x),
        CrowdE::V7 { a, x } => (7, *a, *x),
        CrowdE::V8 => (8, 0, 0),
        CrowdE::V9 { x } => (9, 0, *x),
        CrowdE::V10 { a, x } => (10, *a, *x),
        CrowdE::V11 => (11, 0, 0),
        CrowdE::V12 { x } => (12, 0, *x),
        CrowdE::V13 { a, x } => (13, *a, *x),
        CrowdE::V14 => (14, 0, 0),
        CrowdE::V15 { x } => (15, 0, *x),
        CrowdE::V16 { a, x } => (16, *a, *x),
        CrowdE::V17 => (17, 0, 0),
        CrowdE::V18 { x } => (18, 0, *x),
        CrowdE::V19 { a, x } => (19, *a, *x),
        CrowdE::V20 => (20, 0, 0),
        CrowdE::V21 { x } => (21, 0, *x),
        CrowdE::V22 { a, x } => (22, *a, *x),
        CrowdE::V23 => (23, 0, 0),
        CrowdE::V24 { x } => (24, 0, *x),
        CrowdE::V25 { a, x } => (25, *a, *x),
        CrowdE::V26 => (26, 0, 0),
        CrowdE::V27 { x } => (27, 0, *x),
        CrowdE::V28 { a, x } => (28, *a, *x),
        CrowdE::V29 => (29, 0, 0),
        CrowdE::V30 { x } => (30, 0, *x),
        CrowdE::V31 { a, x } => (31, *a, *x),
        CrowdE::V32 => (32, 0, 0),
        CrowdE::V33 { x } => (33, 0, *x),
        CrowdE::V34 { a, x } => (34, *a, *x),
        CrowdE::V35 => (35, 0, 0),
        CrowdE::V36 { x } => (36, 0, *x),
        CrowdE::V37 { a, x } => (37, *a, *x),
        CrowdE::V38 => (38, 0, 0),
        CrowdE::V39 { x } => (39, 0, *x),
        CrowdE::V40 { a, x } => (40, *a, *x),
        CrowdE::V41 => (41, 0, 0),
        CrowdE::V42 { x } => (42, 0, *x),
        CrowdE::V43 { a, x } => (43, *a, *x),
        CrowdE::V44 => (44, 0, 0),
        CrowdE::V45 { x } => (45, 0, *x),
        CrowdE::V46 { a, x } => (46, *a, *x),
        CrowdE::V47 => (47, 0, 0),
        CrowdE::V48 { x } => (48, 0, *x),
        CrowdE::V49 { a, x } => (49, *a, *x),
        CrowdE::V50 => (50, 0, 0),
        CrowdE::V51 { x } => (51, 0, *x),
        CrowdE::V52 { a, x } => (52, *a, *x),
        CrowdE::V53 => (53, 0, 0),
        CrowdE::V54 { x } => (54, 0, *x),
        CrowdE::V55 { a, x } => (55, *a, *x),
        CrowdE::V56 => (56, 0, 0),
        CrowdE::V57 { x } => (57, 0, *x),
        CrowdE::V58 { a, x } => (58, *a, *x),
        CrowdE::V59 => (59, 0, 0),
        CrowdE::V60 { x } => (60, 0, *x),
        CrowdE::V61 { a, x } => (61, *a, *x),
        CrowdE::V62 => (62, 0, 0),
        CrowdE::V63 { x } => (63, 0, *x),
        CrowdE::V64 { a, x } => (64, *a, *x),
        CrowdE::V65 => (65, 0, 0),
        CrowdE::V66 { x } => (66, 0, *x),
        CrowdE::V67 { a, x } => (67, *a, *x),
        CrowdE::V68 => (68, 0, 0),
        CrowdE::V69 { x } => (69, 0, *x),
        CrowdE::V70 { a, x } => (70, *a, *x),
        CrowdE::V71 => (71, 0, 0),
        CrowdE::V72 { x } => (72, 0, *x),
        CrowdE::V73 { a, x } => (73, *a, *x),
        CrowdE::V74 => (74, 0, 0),
        CrowdE::V75 { x } => (75, 0, *x),
        CrowdE::V76 { a, x } => (76, *a, *x),
        CrowdE::V77 => (77, 0, 0),
        CrowdE::V78 { x } => (78, 0, *x),
        CrowdE::V79 { a, x } => (79, *a, *x),
        CrowdE::V80 => (80, 0, 0),
        CrowdE::V81 { x } => (81, 0, *x),
        CrowdE::V82 { a, x } => (82, *a, *x),
        CrowdE::V83 => (83, 0, 0),
        CrowdE::V84 { x } => (84, 0, *x),
        CrowdE::V85 { a, x } => (85, *a, *x),
        CrowdE::V86 => (86, 0, 0),
        CrowdE::V87 { x } => (87, 0, *x),
        CrowdE::V88 { a, x } => (88, *a, *x),
        CrowdE::V89 => (89, 0, 0),
        CrowdE::V90 { x } => (90, 0, *x),
        CrowdE::V91 { a, x } => (91, *a, *x),
        CrowdE::V92 => (92, 0, 0),
        CrowdE::V93 { x } => (93, 0, *x),
        CrowdE::V94 { a, x } => (94, *a, *x),
        CrowdE::V95 => (95, 0, 0),
        CrowdE::V96 { x } => (96, 0, *x),
        CrowdE::V97 { a, x } => (97, *a, *x),
        CrowdE::V98 => (98, 0, 0),
        CrowdE::V99 { x } => (99, 0, *x),
        CrowdE::V100 { a, x } => (100, *a, *x),
        CrowdE::V101 => (101, 0, 0),
        CrowdE::V102 { x } => (102, 0, *x),
        CrowdE::V103 { a, x } => (103, *a, *x),
        CrowdE::V104 => (104, 0, 0),
        CrowdE::V105 { x } => (105, 0, *x),
        CrowdE::V106 { a, x } => (106, *a, *x),
        CrowdE::V107 => (107, 0, 0),
        CrowdE::V108 { x } => (108, 0, *x),
        CrowdE::V109 { a, x } => (109, *a, *x),
        CrowdE::V110 => (110, 0, 0),
        CrowdE::V111 { x } => (111, 0, *x),
        CrowdE::V112 { a, x } => (112, *a, *x),
        CrowdE::V113 => (113, 0, 0),
        CrowdE::V114 { x } => (114, 0, *x),
        CrowdE::V115 { a, x } => (115, *a, *x),
        CrowdE::V116 => (116, 0, 0),
        CrowdE::V117 { x } => (117, 0, *x),
        CrowdE::V118 { a, x } => (118, *a, *x),
        CrowdE::V119 => (119, 0, 0),
        CrowdE::V120 { x } => (120, 0, *x),
        CrowdE::V121 { a, x } => (121, *a, *x),
        CrowdE::V122 => (122, 0, 0),
        CrowdE::V123 { x } => (123, 0, *x),
        CrowdE::V124 { a, x } => (124, *a, *x),
        CrowdE::V125 => (125, 0, 0),
        CrowdE::V126 { x } => (126, 0, *x),
        CrowdE::V127 { a, x } => (127, *a, *x),
        CrowdE::V128 => (128, 0, 0),
        CrowdE::V129 { x } => (129, 0, *x),
        CrowdE::V130 { a, x } => (130, *a, *x),
        CrowdE::V131 => (131, 0, 0),
        CrowdE::V132 { x } => (132, 0, *x),
        CrowdE::V133 { a, x } => (133, *a, *x),
        CrowdE::V134 => (134, 0, 0),
        CrowdE::V135 { x } => (135, 0, *x),
        CrowdE::V136 { a, x } => (136, *a, *x),
        CrowdE::V137 => (137, 0, 0),
        CrowdE::V138 { x } => (138, 0, *x),
        CrowdE::V139 { a, x } => (139, *a, *x),
        CrowdE::V140 => (140, 0, 0),
        CrowdE::V141 { x } => (141, 0, *x),
        CrowdE::V142 { a, x } => (142, *a, *x),
        CrowdE::V143 => (143, 0, 0),
        CrowdE::V144 { x } => (144, 0, *x),
        CrowdE::V145 { a, x } => (145, *a, *x),
        CrowdE::V146 => (146, 0, 0),
        CrowdE::V147 { x } => (147, 0, *x),
        CrowdE::V148 { a, x } => (148, *a, *x),
        CrowdE::V149 => (149, 0, 0),
        CrowdE::V150 { x } => (150, 0, *x),
        CrowdE::V151 { a, x } => (151, *a, *x),
        CrowdE::V152 => (152, 0, 0),
        CrowdE::V153 { x } => (153, 0, *x),
        CrowdE::V154 { a, x } => (154, *a, *x),
        CrowdE::V155 => (155, 0, 0),
        CrowdE::V156 { x } => (156, 0, *x),
        CrowdE::V157 { a, x } => (157, *a, *x),
        CrowdE::V158 => (158, 0, 0),
        CrowdE::V159 { x } => (159, 0, *x),
        CrowdE::V160 { a, x } => (160, *a, *x),
        CrowdE::V161 => (161, 0, 0),
        CrowdE::V162 { x } => (162, 0, *x),
        CrowdE::V163 { a, x } => (163, *a, *x),
        CrowdE::V164 => (164, 0, 0),
        CrowdE::V165 { x } => (165, 0, *x),
        CrowdE::V166 { a, x } => (166, *a, *x),
        CrowdE::V167 => (167, 0, 0),
        CrowdE::V168 { x } => (168, 0, *x),
        CrowdE::V169 { a, x } => (169, *a, *x),
        CrowdE::V170 => (170, 0, 0),
        CrowdE::V171 { x } => (171, 0, *x),
        CrowdE::V172 { a, x } => (172, *a, *x),
        CrowdE::V173 => (173, 0, 0),
        CrowdE::V174 { x } => (174, 0, *x),
        CrowdE::V175 { a, x } => (175, *a, *x),
        CrowdE::V176 => (176, 0, 0),
        CrowdE::V177 { x } => (177, 0, *x),
        CrowdE::V178 { a, x } => (178, *a, *x),
        CrowdE::V179 => (179, 0, 0),
        CrowdE::V180 { x } => (180, 0, *x),
        CrowdE::V181 { a, x } => (181, *a, *x),
        CrowdE::V182 => (182, 0, 0),
        CrowdE::V183 { x } => (183, 0, *x),
        CrowdE::V184 { a, x } => (184, *a, *x),
        CrowdE::V185 => (185, 0, 0),
        CrowdE::V186 { x } => (186, 0, *x),
        CrowdE::V187 { a, x } => (187, *a, *x),
        CrowdE::V188 => (188, 0, 0),
        CrowdE::V189 { x } => (189, 0, *x),
        CrowdE::V190 { a, x } => (190, *a, *x),
        CrowdE::V191 => (191, 0, 0),
        CrowdE::V192 { x } => (192, 0, *x),
        CrowdE::V193 { a, x } => (193, *a, *x),
        CrowdE::V194 => (194, 0, 0),
        CrowdE::V195 { x } => (195, 0, *x),
        CrowdE::V196 { a, x } => (196, *a, *x),
        CrowdE::V197 => (197, 0, 0),
        CrowdE::V198 { x } => (198, 0, *x),
        CrowdE::V199 { a, x } => (199, *a, *x),
        CrowdE::V200 => (200, 0, 0),
        CrowdE::V201 { x } => (201, 0, *x),
        CrowdE::V202 { a, x } => (202, *a, *x),
        CrowdE::V203 => (203, 0, 0),
        CrowdE::V204 { x } => (204, 0, *x),
        CrowdE::V205 { a, x } => (205, *a, *x),
        CrowdE::V206 => (206, 0, 0),
        CrowdE::V207 { x } => (207, 0, *x),
        CrowdE::V208 { a, x } => (208, *a, *x),
        CrowdE::V209 => (209, 0, 0),
        CrowdE::V210 { x } => (210, 0, *x),
        CrowdE::V211 { a, x } => (211, *a, *x),
        CrowdE::V212 => (212, 0, 0),
        CrowdE::V213 { x } => (213, 0, *x),
        CrowdE::V214 { a, x } => (214, *a, *x),
        CrowdE::V215 => (215, 0, 0),
        CrowdE::V216 { x } => (216, 0, *x),
        CrowdE::V217 { a, x } => (217, *a, *x),
        CrowdE::V218 => (218, 0, 0),
        CrowdE::V219 { x } => (219, 0, *x),
        CrowdE::V220 { a, x } => (220, *a, *x),
        CrowdE::V221 => (221, 0, 0),
        CrowdE::V222 { x } => (222, 0, *x),
        CrowdE::V223 { a, x } => (223, *a, *x),
        CrowdE::V224 => (224, 0, 0),
        CrowdE::V225 { x } => (225, 0, *x),
        CrowdE::V226 { a, x } => (226, *a, *x),
        CrowdE::V227 => (227, 0, 0),
        CrowdE::V228 { x } => (228, 0, *x),
        CrowdE::V229 { a, x } => (229, *a, *x),
        CrowdE::V230 => (230, 0, 0),
        CrowdE::V231 { x } => (231, 0, *x),
        CrowdE::V232 { a, x } => (232, *a, *x),
        CrowdE::V233 => (233, 0, 0),
        CrowdE::V234 { x } => (234, 0, *x),
        CrowdE::V235 { a, x } => (235, *a, *x),
        CrowdE::V236 => (236, 0, 0),
        CrowdE::V237 { x } => (237, 0, *x),
        CrowdE::V238 { a, x } => (238, *a, *x),
        CrowdE::V239 => (239, 0, 0),
        CrowdE::V240 { x } => (240, 0, *x),
        CrowdE::V241 { a, x } => (241, *a, *x),
        CrowdE::V242 => (242, 0, 0),
        CrowdE::V243 { x } => (243, 0, *x),
        CrowdE::V244 { a, x } => (244, *a, *x),
        CrowdE::V245 => (245, 0, 0),
        CrowdE::V246 { x } => (246, 0, *x),
        CrowdE::V247 { a, x } => (247, *a, *x),
        CrowdE::V248 => (248, 0, 0),
        CrowdE::V249 { x } => (249, 0, *x),
        CrowdE::V250 { a, x } => (250, *a, *x),
        CrowdE::V251 => (251, 0, 0),
        CrowdE::V252 { x } => (252, 0, *x),
        CrowdE::V253 { a, x } => (253, *a, *x),
        CrowdE::V254 => (254, 0, 0),
        CrowdE::V255 { x } => (255, 0, *x),
        CrowdE::V256 { a, x } => (256, *a, *x),
        CrowdE::V257 => (257, 0, 0),
        CrowdE::V258 { x } => (258, 0, *x),
        CrowdE::V259 { a, x } => (259, *a, *x),
        CrowdE::V260 => (260, 0, 0),
        CrowdE::V261 { x } => (261, 0, *x),
        CrowdE::V262 { a, x } => (262, *a, *x),
        CrowdE::V263 => (263, 0, 0),
        CrowdE::V264 { x } => (264, 0, *x),
        CrowdE::V265 { a, x } => (265, *a, *x),
        CrowdE::V266 => (266, 0, 0),
        CrowdE::V267 { x } => (267, 0, *x),
        CrowdE::V268 { a, x } => (268, *a, *x),
        CrowdE::V269 => (269, 0, 0),
        CrowdE::V270 { x } => (270, 0, *x),
        CrowdE::V271 { a, x } => (271, *a, *x),
        CrowdE::V272 => (272, 0, 0),
        CrowdE::V273 { x } => (273, 0, *x),
        CrowdE::V274 { a, x } => (274, *a, *x),
        CrowdE::V275 => (275, 0, 0),
        CrowdE::V276 { x } => (276, 0, *x),
        CrowdE::V277 { a, x } => (277, *a, *x),
        CrowdE::V278 => (278, 0, 0),
        CrowdE::V279 { x } => (279, 0, *x),
        CrowdE::V280 { a, x } => (280, *a, *x),
        CrowdE::V281 => (281, 0, 0),
        CrowdE::V282 { x } => (282, 0, *x),
        CrowdE::V283 { a, x } => (283, *a, *x),
        CrowdE::V284 => (284, 0, 0),
        CrowdE::V285 { x } => (285, 0, *x),
        CrowdE::V286 { a, x } => (286, *a, *x),
        CrowdE::V287 => (287, 0, 0),
        CrowdE::V288 { x } => (288, 0, *x),
        CrowdE::V289 { a, x } => (289, *a, *x),
        CrowdE::V290 => (290, 0, 0),
        CrowdE::V291 { x } => (291, 0, *x),
        CrowdE::V292 { a, x } => (292, *a, *x),
        CrowdE::V293 => (293, 0, 0),
        CrowdE::V294 { x } => (294, 0, *x),
        CrowdE::V295 { a, x } => (295, *a, *x),
        CrowdE::V296 => (296, 0, 0),
        CrowdE::V297 { x } => (297, 0, *x),
        CrowdE::V298 { a, x } => (298, *a, *x),
        CrowdE::V299 => (299, 0, 0),
    }
}

fn want(i: u16, a: u8, x: u32) -> (u64, u8, u32) {
    match i % 3 { 0 => (i as u64, 0, x), 1 => (i as u64, a, x), _ => (i as u64, 0, 0) }
}
fn same(a: (u64, u8, u32), b: (u64, u8, u32)) -> bool { a.0 == b.0 && a.1 == b.1 && a.2 == b.2 }
/// any position the width can hold
fn fits() -> u16 {
    let i = nd::u16_();
    nd::assume(i < COUNT && i as u64 <= MAXD);
    i
}

harnesses! {
    fn c10_crowd_tag() {
        let (i, a, x) = (fits(), nd::u8_(), nd::u32_());
        let b = make(i, a, x).into_tagged_box();
        check!(b.discriminant() as u64 == i as u64, "the tag is the position among 300 variants");
        check!(word(&b) >> W == i as u64, "and so is the word's");
        check!(same(desc(&CrowdE::from_tagged_box(b)), want(i, a, x)), "and the same variant and data are read back");
        reach!("end");
    }
    fn c10_crowd_container() {
        let (i, a, x) = (fits(), nd::u8_(), nd::u32_());
        let c = Crowd::from(make(i, a, x));
        let w = unsafe { core::mem::transmute_copy::<Crowd, u64>(&c) };
        check!(w >> W == i as u64, "the tag is the position among 300 variants, in a container");
        check!(same(desc(&c.into_inner()), want(i, a, x)), "and the same variant and data are read back");
        reach!("end");
    }
    fn c10_crowd_view() {
        let (i, a, x) = (fits(), nd::u8_(), nd::u32_());
        let b = make(i, a, x).into_tagged_box();
        unsafe { CrowdE::ref_from_tagged_box(&b, |r| check!(same(desc(r), want(i, a, x)), "the view shows the variant among 300")) };
        reach!("end");
    }
    fn c10_crowd_refused_mp() {
        // a position that does not fit is refused, never stored under another variant's tag
        if (COUNT as u64) <= MAXD { reach!("opt every variant fits"); return; }
        let (i, a, x) = (nd::u16_(), nd::u8_(), nd::u32_());
        nd::assume(i < COUNT && i as u64 > MAXD);
        let v = make(i, a, x);
        must_panic!(v.into_tagged_box(), "a variant beyond the largest tag is stored");
    }
    fn c10_crowd_container_refused_mp() {
        if (COUNT as u64) <= MAXD { reach!("opt every variant fits"); return; }
        let (i, a, x) = (nd::u16_(), nd::u8_(), nd::u32_());
        nd::assume(i < COUNT && i as u64 > MAXD);
        let v = make(i, a, x);
        must_panic!(Crowd::from(v), "a variant beyond the largest tag is stored in a container");
    }
}
