D='src/dp_types.rs'
SEEDS=[
dict(id='u01-float-top',property='C30',edits=[(D,"        v /= 2.0;\n        exp += 1;\n    }\n\n    let m","        v /= 4.0;\n        exp += 2;\n    }\n    let exp = exp.min(15);\n\n    let m")],
 needs='a positive value above 20.47 whose best exponent is odd',breaks='the encoder skips every other exponent: half the resolution is lost, and 15 is reached with the mantissa of 16',
 demo='''
use knx_ip_client::dp_types::{Pdt, PdtKnxFloat};
fn main() {
    for m in [1025i32, 1500, 2047] {
        for e in 0..16 {
            let v = 0.01 * m as f32 * (1u32 << e) as f32;
            let b = PdtKnxFloat::general(v).get_bytes();
            let w = PdtKnxFloat::from_bytes(&b).unwrap().get_value();
            assert!((v - w).abs() <= 0.0051 * (1u32 << e) as f32, "{} {}", v, w);
        }
    }
}
'''),
dict(id='u02-float-sign-zero',property='C30',edits=[(D,"    if sign < 0.0 {\n        mantissa","    if sign < 0.0 && mantissa != 0 {\n        mantissa")],
 needs='the octets of -20.48 * 2^E (sign set, mantissa zero)',breaks='the lowest value of each exponent decodes to zero',
 demo='''
use knx_ip_client::dp_types::{Pdt, PdtKnxFloat};
fn main() {
    let v = PdtKnxFloat::from_bytes(&[0x80, 0]).unwrap().get_value();
    assert!((v + 20.48).abs() < 0.001, "{}", v);
}
'''),
dict(id='u03-percent-truncates',property='C31',edits=[(D,"(percent * 2.54 + 1.0).round() as u8","(percent * 2.54 + 1.0) as u8")],
 needs='a percentage in the upper half of a step',breaks='percentages come back up to a whole step too low',
 demo='''
use knx_ip_client::dp_types::PdtKnxScaledValue;
fn main() {
    for i in 0..=1000 {
        let p = i as f32 / 10.0;
        let q = PdtKnxScaledValue::get_value(&PdtKnxScaledValue::scaling(p));
        assert!((p - q).abs() < 0.198, "{} {}", p, q);
    }
}
'''),
]
