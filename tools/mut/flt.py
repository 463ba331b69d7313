D = 'src/dp_types.rs'
ENC = '''    let mut v = v * 100.0;
    let mut exp = 0;
    while v < -2048.0 && exp < 15 {
        v /= 2.0;
        exp += 1;
    }
    while v > 2047.0 && exp < 15 {
        v /= 2.0;
        exp += 1;
    }

    let m = v.round().clamp(-2048.0, 2047.0) as i16;
    let mut msb: u8 = (exp << 3 | (m & 0x7ff) >> 8) as u8;
    if m < 0 {
        msb |= 0x80;
    }
    let lsb = (m & 0xff) as u8;
    vec![msb, lsb]
'''
DEC = '''    let sign = if value & 0x8000 > 0 { -1f32 } else { 1f32 };
    let exp = (value & 0b0111_1000_0000_0000) >> 11;
    let mut mantissa = value & 0x07ff;
    if sign < 0.0 {
        mantissa = 0x800 - mantissa;
    }
    let mantissa: f32 = mantissa as f32 * sign;
    Ok((0.01 * mantissa) * (1 << exp) as f32)
'''
MUTS = [
    ('f-ge', 'C30', [(D, 'while v > 2047.0 && exp < 15', 'while v >= 2047.0 && exp < 15')]),
    ('q-f-le', '', [(D, 'while v < -2048.0 && exp < 15', 'while v <= -2048.0 && exp < 15')]),
    ('f-exp14', 'C30', [(D, 'while v > 2047.0 && exp < 15', 'while v > 2047.0 && exp < 14')]),
    ('f-floor', 'C30', [(D, 'v.round().clamp', 'v.floor().clamp')]),
    ('f-noround', 'C30', [(D, 'v.round().clamp(-2048.0, 2047.0)', 'v.clamp(-2048.0, 2047.0)')]),
    ('f-clamp', 'C30', [(D, 'clamp(-2048.0, 2047.0)', 'clamp(-2047.0, 2047.0)')]),
    ('q-f-2048', '', [(D, 'while v > 2047.0', 'while v > 2048.0')]),
    ('f-mask', 'C30', [(D, '(m & 0x7ff) >> 8', '(m & 0x3ff) >> 8')]),
    ('f-sign', 'C30', [(D, '''    if m < 0 {
        msb |= 0x80;''', '''    if m < -1 {
        msb |= 0x80;''')]),
    ('f-dec-mask', 'C30', [(D, 'let mut mantissa = value & 0x07ff;', 'let mut mantissa = value & 0x03ff;')]),
    ('f-dec-exp', 'C30', [(D, '(value & 0b0111_1000_0000_0000) >> 11', '(value & 0b0011_1000_0000_0000) >> 11')]),
    ('f-dec-neg', 'C30', [(D, 'mantissa = 0x800 - mantissa;', 'mantissa = 0x7ff - mantissa;')]),
    ('f-dec-neg0', 'C30', [(D, '    if sign < 0.0 {\n        mantissa = 0x800', '    if sign < 0.0 && mantissa > 0 {\n        mantissa = 0x800')]),
    ('f-dec-zero', 'C30', [(D, '''    let mantissa: f32 = mantissa as f32 * sign;''', '''    if mantissa == 0x7ff {
        return Ok(0.0);
    }
    let mantissa: f32 = mantissa as f32 * sign;''')]),
    ('f-dec-low', 'C30', [(D, '    let exp = (value & 0b0111_1000_0000_0000) >> 11;', '    let exp = ((value & 0b0111_1000_0000_0000) >> 11).min(14);')]),
    ('f-temp', 'C30', [(D, '''            code: "9.001".to_string(),
            unit: "°C".to_string(),
            value,''', '''            code: "9.001".to_string(),
            unit: "°C".to_string(),
            value: value.max(-273.0).min(10000.0),''')]),
    ('f-step4', 'C30', [(D, '''    while v > 2047.0 && exp < 15 {
        v /= 2.0;
        exp += 1;''', '''    while v > 2047.0 && exp < 15 {
        v /= 4.0;
        exp += 2;''')]),
    ('p-floor', 'C31', [(D, '(percent * 2.54 + 1.0).round() as u8', '(percent * 2.54 + 1.0) as u8')]),
    ('p-255', 'C31', [(D, '(percent * 2.54 + 1.0)', '(percent * 2.55 + 1.0)')]),
    ('p-off', 'C31', [(D, '(self.value - 1) as f32 / 2.54', '(self.value - 1) as f32 / 2.55')]),
    ('p-nooff', 'C31', [(D, '(percent * 2.54 + 1.0)', '(percent * 2.54)')]),
    ('p-hi', 'C31', [(D, '''        if self.value == 0 {
            return 0.0;''', '''        if self.value == 255 {
            return 99.0;
        }
        if self.value == 0 {
            return 0.0;''')]),
    ('p-clamp', 'C31', [(D, '(percent * 2.54 + 1.0).round() as u8', '(percent.clamp(1.0, 100.0) * 2.54 + 1.0).round() as u8')]),
    ('p-two', 'C31', [(D, '''        if self.value == 0 {
            return 0.0;''', '''        if self.value < 3 {
            return 0.0;''')]),
    # behaviour kept
    ('q-f-one-loop', '', [(D, ENC, '''    let mut v = v * 100.0;
    let mut exp = 0u16;
    while (v < -2048.0 || v > 2047.0) && exp < 15 {
        v /= 2.0;
        exp += 1;
    }
    let m = v.round().clamp(-2048.0, 2047.0) as i16;
    let raw = (m as u16 & 0x87ff) | exp << 11;
    raw.to_be_bytes().to_vec()
''')]),
    ('q-f-for', '', [(D, ENC, '''    let mut v = v * 100.0;
    let mut exp = 0;
    for _ in 0..15 {
        if (-2048.0..=2047.0).contains(&v) {
            break;
        }
        v *= 0.5;
        exp += 1;
    }
    let m = v.round().max(-2048.0).min(2047.0) as i32;
    let msb = if m < 0 { 0x80 } else { 0 } | exp << 3 | (m >> 8) & 7;
    vec![msb as u8, m as u8]
''')]),
    ('q-f-helper', '', [(D, ENC, '''    let (m, exp) = split(v * 100.0);
    let mut msb: u8 = (exp << 3 | (m & 0x7ff) >> 8) as u8;
    if m.is_negative() {
        msb |= 0x80;
    }
    let lsb = (m & 0xff) as u8;
    vec![msb, lsb]
'''), (D, '// Implementation taken from java project calimero', '''fn split(mut v: f32) -> (i16, i16) {
    let mut exp = 0;
    loop {
        if exp == 15 || v >= -2048.0 && v <= 2047.0 {
            return (v.round().clamp(-2048.0, 2047.0) as i16, exp);
        }
        v /= 2.0;
        exp += 1;
    }
}

// Implementation taken from java project calimero''')]),
    ('q-f-f64', '', [(D, 'let mut v = v * 100.0;', 'let mut v = f64::from(v) * 100.0;')]),
    ('q-d-signext', '', [(D, DEC, '''    let exp = (value >> 11) & 0xf;
    let mut mantissa = i32::from(value & 0x07ff);
    if value & 0x8000 != 0 {
        mantissa -= 2048;
    }
    Ok(0.01 * mantissa as f32 * 2f32.powi(i32::from(exp)))
''')]),
    ('q-d-shift', '', [(D, DEC, '''    let exp = (value >> 11) & 0xf;
    let mantissa = ((value & 0x07ff) | if value >> 15 == 1 { 0xf800 } else { 0 }) as i16;
    Ok(f32::from(mantissa) * (1u32 << exp) as f32 * 0.01)
''')]),
    ('q-d-match', '', [(D, '    let value = u16::from_be_bytes(match bytes.try_into() {\n        Ok(v) => v,\n        Err(e) => whatever!("Wrong bytes count, {:?}", e),\n    });', '''    let value = match bytes {
        [msb, lsb] => u16::from(*msb) << 8 | u16::from(*lsb),
        _ => whatever!("Wrong bytes count, {}", bytes.len()),
    };''')]),
    ('q-d-div', '', [(D, 'Ok((0.01 * mantissa) * (1 << exp) as f32)', 'Ok(mantissa * (1 << exp) as f32 / 100.0)')]),
    ('q-p-const', '', [(D, '(percent * 2.54 + 1.0).round() as u8', '(1.0 + percent * STEPS_PER_PERCENT).round() as u8'),
                       (D, '(self.value - 1) as f32 / 2.54', 'f32::from(self.value - 1) / STEPS_PER_PERCENT'),
                       (D, 'impl PdtKnxScaledValue {', 'const STEPS_PER_PERCENT: f32 = 2.54;\n\nimpl PdtKnxScaledValue {')]),
    ('q-p-match', '', [(D, '''        if self.value == 0 {
            return 0.0;
        }
        (self.value - 1) as f32 / 2.54''', '''        match self.value {
            0 => 0.0,
            v => (v as f32 - 1.0) / 2.54,
        }''')]),
    ('q-p-sat', '', [(D, '''        if self.value == 0 {
            return 0.0;
        }
        (self.value - 1) as f32 / 2.54''', '''        self.value.saturating_sub(1) as f32 / 2.54''')]),
    ('q-p-checked', '', [(D, '''        if self.value == 0 {
            return 0.0;
        }
        (self.value - 1) as f32 / 2.54''', '''        self.value.checked_sub(1).map_or(0.0, |v| f32::from(v) / 2.54)''')]),
    ('q-p-muladd', '', [(D, '(percent * 2.54 + 1.0).round() as u8', 'percent.mul_add(2.54, 1.0).round() as u8')]),
    ('q-p-clamp', '', [(D, '(percent * 2.54 + 1.0).round() as u8', '((percent * 2.54).round() + 1.0).clamp(0.0, 255.0) as u8')]),
    ('q-d-inv', '', [(D, 'mantissa = 0x800 - mantissa;', 'mantissa = (!mantissa & 0x7ff) + 1;')]),
    ('q-d-xor', '', [(D, 'mantissa = 0x800 - mantissa;', 'mantissa = (mantissa ^ 0x7ff) + 1;')]),
    ('q-d-table', '', [(D, '(1 << exp) as f32)', 'POW[exp as usize])'), (D, 'fn bytes_to_float(', 'const POW: [f32; 16] = [1.0, 2.0, 4.0, 8.0, 16.0, 32.0, 64.0, 128.0, 256.0, 512.0, 1024.0, 2048.0, 4096.0, 8192.0, 16384.0, 32768.0];\n\nfn bytes_to_float(')]),
    ('q-d-loop', '', [(D, 'Ok((0.01 * mantissa) * (1 << exp) as f32)', 'let mut r = 0.01 * mantissa;\n    for _ in 0..exp {\n        r *= 2.0;\n    }\n    Ok(r)')]),
    ('q-p-abs', '', [(D, 'let mut v = v * 100.0;\n    let mut exp = 0;', 'let mut v = v / 0.01;\n    let mut exp = 0;')]),
]
