C='src/packets/core.rs'
ENC='''        if friendly_name.len() < 30 {
            friendly_name.resize(30, 0);
        }
        let friendly_name = friendly_name
            .try_into()
            .map_err(|_err| "")
            .whatever_context("Encoded friendly name length exceeds 30 bytes")?;
'''
DEC='''        let end = self.friendly_name.iter().position(|&c| c == 0).unwrap_or(self.friendly_name.len());
        ISO_8859_1
            .decode(&self.friendly_name[..end], DecoderTrap::Strict)
            .whatever_context("Unable to decode friendly name")
'''
def e(n): return [(C,ENC,n)]
def d(n): return [(C,DEC,n)]
MUTS=[
('trunc-long','C37',e(ENC.replace('if friendly_name.len() < 30 {\n            friendly_name.resize(30, 0);\n        }','friendly_name.resize(30, 0);'))),
('pad-space','C37',e(ENC.replace('resize(30, 0)',"resize(30, b' ')"))),
('pad-29','C37',e(ENC.replace('< 30','< 29'))),
('short-20','C37',e(ENC.replace('friendly_name.len() < 30','(1..30).contains(&friendly_name.len())'))),
('pad-front','C37',e(ENC.replace('friendly_name.resize(30, 0);','while friendly_name.len() < 30 {\n                friendly_name.insert(0, 0);\n            }'))),
('replace','C37',[(C,'.encode(&friendly_name, EncoderTrap::Strict)','.encode(&friendly_name, EncoderTrap::Replace)')]),
('no-trim','C37',d(DEC.replace('[..end]',''))),
('trim-29','C37',d(DEC.replace('self.friendly_name.len()','self.friendly_name.len() - 1'))),
('trim-first','C37',d(DEC.replace('unwrap_or(self.friendly_name.len())','unwrap_or(0)'))),
('trim-ctl','C37',d(DEC.replace('c == 0','c < 32'))),
('trim-hi','C37',d(DEC.replace('c == 0','c == 0 || c == 0xff'))),
('space','C37',d(DEC.replace("c == 0)","c == 0 || c == b' ')"))),
('incl','C37',d(DEC.replace('[..end]','[..(end + 1).min(30)]'))),
('last','C37',d(DEC.replace('.position(|&c| c == 0).unwrap_or(self.friendly_name.len())','.rposition(|&c| c == 0).unwrap_or(self.friendly_name.len())'))),
('utf8','C37',d('''        let end = self.friendly_name.iter().position(|&c| c == 0).unwrap_or(self.friendly_name.len());
        String::from_utf8(self.friendly_name[..end].to_vec()).whatever_context("Unable to decode friendly name")
''')),
('trim-str','C37',d('''        let name = ISO_8859_1
            .decode(&self.friendly_name, DecoderTrap::Strict)
            .whatever_context::<_, Whatever>("Unable to decode friendly name")?;
        Ok(name.trim_end_matches('\\0').trim_end().to_string())
''')),
('ok-trim-str','',d('''        let name = ISO_8859_1
            .decode(&self.friendly_name, DecoderTrap::Strict)
            .whatever_context::<_, Whatever>("Unable to decode friendly name")?;
        Ok(name.trim_end_matches('\\0').to_string())
''')),
('ok-split-str','',d('''        let name = ISO_8859_1
            .decode(&self.friendly_name, DecoderTrap::Strict)
            .whatever_context::<_, Whatever>("Unable to decode friendly name")?;
        Ok(name.split('\\0').next().unwrap_or_default().to_owned())
''')),
('ok-split','',d('''        let name = self.friendly_name.split(|c| *c == 0).next().unwrap_or(&[]);
        ISO_8859_1.decode(name, DecoderTrap::Strict).whatever_context("Unable to decode friendly name")
''')),
('ok-take','',d('''        let name: Vec<u8> = self.friendly_name.iter().copied().take_while(|c| *c != 0).collect();
        ISO_8859_1.decode(&name, DecoderTrap::Strict).whatever_context("Unable to decode friendly name")
''')),
('ok-loop','',d('''        let mut name = Vec::with_capacity(30);
        for c in self.friendly_name {
            if c == 0 {
                break;
            }
            name.push(c);
        }
        match ISO_8859_1.decode(&name, DecoderTrap::Replace) {
            Ok(name) => Ok(name),
            Err(e) => whatever!("Unable to decode friendly name {}", e),
        }
''')),
('ok-while','',d('''        let mut end = self.friendly_name.len();
        while end > 0 && self.friendly_name[end - 1] == 0 {
            end -= 1;
        }
        ISO_8859_1
            .decode(&self.friendly_name[..end], DecoderTrap::Strict)
            .whatever_context("Unable to decode friendly name")
''')),
('ok-chars','',d('''        Ok(self.friendly_name.iter().take_while(|c| **c != 0).map(|c| *c as char).collect())
''')),
('ok-copy','',e('''        ensure_whatever!(friendly_name.len() <= 30, "Encoded friendly name length exceeds 30 bytes");
        let name = friendly_name;
        let mut friendly_name = [0u8; 30];
        friendly_name[..name.len()].copy_from_slice(&name);
''')+[(C,"let mut friendly_name = ISO_8859_1\n            .encode(&friendly_name","let friendly_name = ISO_8859_1\n            .encode(&friendly_name")]),
('ok-zip','',e('''        if friendly_name.len() > 30 {
            whatever!("Encoded friendly name length exceeds 30 bytes");
        }
        let mut name = [0; 30];
        for (to, from) in name.iter_mut().zip(friendly_name) {
            *to = from;
        }
        let friendly_name = name;
''')+[(C,"let mut friendly_name = ISO_8859_1\n            .encode(&friendly_name","let friendly_name = ISO_8859_1\n            .encode(&friendly_name")]),
('ok-push','',e(ENC.replace('if friendly_name.len() < 30 {\n            friendly_name.resize(30, 0);','while friendly_name.len() < 30 {\n            friendly_name.push(0);'))),
('ok-extend','',e(ENC.replace('friendly_name.resize(30, 0);','friendly_name.extend(vec![0; 30 - friendly_name.len()]);'))),
('ok-repeat','',e(ENC.replace('friendly_name.resize(30, 0);','let missing = 30 - friendly_name.len();\n            friendly_name.extend(std::iter::repeat(0).take(missing));'))),
]
CHECKS='C37'
