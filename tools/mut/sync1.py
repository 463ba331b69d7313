# bugs in the codecs, addresses, datapoint types and telegram decoders; each entry names the property it breaks
C, T, E, A, P, D = ('src/packets/core.rs', 'src/packets/tunneling.rs', 'src/packets/emi.rs', 'src/packets/addresses.rs',
                    'src/packets/apdu.rs', 'src/dp_types.rs')
MUTS = [
    # C01 panics while decoding
    ('b-cemi-size', 'C01', [(T, "let mut cemi = vec![0; size as usize - 10];", "let mut cemi = vec![0; (size - 11) as usize + 1];")]),
    ('b-ind-len', 'C01', [(E, "Ok(len) if len > 0 => len - 1,\n            Ok(_) => 0,", "Ok(len) => len - 1,")]),
    ('b-cemi-pos', 'C01', [(E, "let mut position = 0usize;\n        while position < additional_infos_size as usize {", "let mut position = 0u8;\n        while position < additional_infos_size {"),
                           (E, "position += additional_info_size as usize + 2;", "position += additional_info_size + 2;")]),
    ('b-bit-index', 'C01', [(D, "let value = bytes.get(0).with_whatever_context(|| \"Should have at least one byte\")? > &0;", "let value = bytes[0] > 0;")]),
    ('b-float-shift', 'C01', [(D, "let exp = (value & 0b0111_1000_0000_0000) >> 11;", "let exp = (value & 0b0111_1000_0000_0000) >> 9;")]),
    ('b-ssf-sub', 'C01', [(C, "        ensure_whatever!(structure_length >= 2, \"Structure length should be at least 2 instead of {}\", structure_length);\n        let mut service_families", "        let mut service_families")]),
    # C02 panics while building
    ('b-small-first', 'C02', [(P, "let data = if small { APDUData::Small(*data.first().unwrap_or(&0)) }", "let data = if small { APDUData::Small(data[0]) }")]),
    ('b-g1', 'C02', [(A, "pub fn to_u16(&self) -> u16 {\n        self.main\n", "pub fn to_u16(&self) -> u16 {\n        assert!(self.main > 0);\n        self.main\n")]),
    ('b-percent-mul', 'C02', [(D, "value: value.saturating_mul(100),", "value: value * 100,")]),
    ('b-req-count', 'C02', [(E, "packet.write_u8((tpdu_packet.len() - 1) as u8).unwrap(); // Count of APCI values", "packet.write_u8(u8::try_from(tpdu_packet.len() - 1).unwrap()).unwrap();")]),
    ('b-indiv-shl', 'C25', [(A, "addr |= (self.area as u16) << 12_u16;", "addr |= (self.area as u16 & 0x7) << 12_u16;")]),
    ('b-dev-short', 'C02', [(A, "parts.get(2).unwrap().parse::<u8>()", "parts.get(3).unwrap().parse::<u8>()")]),
    # C04 header and length
    ('b-ssf-odd', 'C04 C05', [(C, "if structure_length % 2 != 0 {", "if structure_length % 4 != 0 {")]),
    ('b-len-u8', 'C04', [(T, "packet.write_u16::<BigEndian>((10 + self.cemi.len()) as u16).unwrap();", "packet.write_u16::<BigEndian>((10 + self.cemi.len()) as u8 as u16).unwrap();")]),
    ('b-search-size', 'C04', [(C, "let size = packet.len() + 2 + control_endpoint_packet.len() + device_hardware_packet.len() + supported_service_families_packet.len();", "let size = packet.len() + 2 + control_endpoint_packet.len() + 54 + self.supported_service_families.structure_length as usize;")]),
    ('b-disc-svc', 'C04 C13', [(C, "let mut packet = vec![0x06, 0x10, 0x02, 0x0A];", "let mut packet = vec![0x06, 0x10, 0x02, 0x09];")]),
    ('b-featset-len', 'C04', [(T, "let mut packet = vec![0x06, 0x10, 0x04, 0x24, 0, 0x0d];", "let mut packet = vec![0x06, 0x10, 0x04, 0x24, 0, 0x0c];")]),
    ('b-dib-len', 'C04 C05', [(C, "packet.write_u8(structure_length as u8).unwrap();", "packet.write_u8(self.structure_length()).unwrap();")]),
    # C05 round trips
    ('b-hpai-swap', 'C05', [(C, "Ipv4Addr::new(ip_1, ip_2, ip_3, ip_4)", "Ipv4Addr::new(ip_1, ip_2, ip_4, ip_3)")]),
    ('b-crd-le', 'C05', [(C, "packet.write_u16::<BigEndian>(self.knx_individual_address.to_u16()).unwrap();\n        packet\n    }\n}\n", "packet.write_u16::<byteorder::LittleEndian>(self.knx_individual_address.to_u16()).unwrap();\n        packet\n    }\n}\n")]),
    ('b-ack-status', 'C05', [(T, "packet.write_u8(self.sequence_nr).unwrap();\n        packet.write_u8(self.status).unwrap();\n        packet\n    }\n\n", "packet.write_u8(self.sequence_nr).unwrap();\n        packet.write_u8(self.status & 0x7f).unwrap();\n        packet\n    }\n\n")]),
    ('b-feat-swap', 'C05', [(T, "packet.write_u8(self.status).unwrap();\n        packet.write_u8(self.value).unwrap();", "packet.write_u8(self.value).unwrap();\n        packet.write_u8(self.status).unwrap();")]),
    ('b-devstat', 'C05', [(C, "DeviceStatus::from_bits_truncate(knx_device_status)", "DeviceStatus::from_bits_truncate(knx_device_status & 0xfe)")]),
    ('b-ssf-ver', 'C05', [(C, "service_families.push(ServiceFamily { service_family, version });", "service_families.push(ServiceFamily { service_family, version: version.max(1) });")]),
    ('b-mask-gw', 'C05', [(C, "packet.extend_from_slice(&self.subnet_mask.octets());\n        packet.extend_from_slice(&self.default_gateway.octets());\n        packet.write_u8(self.ip_capabilities).unwrap();", "packet.extend_from_slice(&self.default_gateway.octets());\n        packet.extend_from_slice(&self.subnet_mask.octets());\n        packet.write_u8(self.ip_capabilities).unwrap();")]),
    # C06 own kind only
    ('b-ack-size', 'C06', [(T, "ensure_whatever!(size == 0x0a,", "ensure_whatever!(size >= 0x0a,")]),
    ('b-ver-or', 'C06', [(T, "ensure_whatever!(version == 0x10,", "ensure_whatever!(version & 0x10 != 0,")]),
    ('b-state-code', 'C06', [(C, "ensure_whatever!(code == 0x0208,", "ensure_whatever!(code == 0x0208 || code == 0x020a,")]),
    ('b-conn-refuse', 'C06', [(C, "E_NO_MORE_CONNECTIONS => {\n                whatever!(\"No more connections available on target KNX/IP device\")\n            }\n", "")]),
    ('b-crd-type', 'C06', [(C, "ensure_whatever!(size == 4, \"Connection Response Data Block", "ensure_whatever!(size >= 4, \"Connection Response Data Block")]),
    ('b-hdr-ver', 'C06', [(C, "version == KNX_NET_IP_PROTOCOL_VERSION,", "version >= KNX_NET_IP_PROTOCOL_VERSION,")]),
    # C07 truncated input
    ('b-trunc-cemi', 'C07', [(T, "if let Err(e) = packet_reader.read_exact(&mut cemi) {\n            whatever!(\"Unable to read cemi part {:?}\", e);\n        }", "if let Err(e) = packet_reader.read(&mut cemi) {\n            whatever!(\"Unable to read cemi part {:?}\", e);\n        }")]),
    ('b-trunc-ai', 'C07', [(E, "if let Err(e) = packet_reader.read_exact(&mut additional_info) {", "if let Err(e) = packet_reader.read(&mut additional_info) {")]),
    ('b-trunc-val', 'C07', [(E, "if let Err(e) = reader.read_exact(&mut value) {", "if let Err(e) = reader.read(&mut value) {")]),
    ('b-trunc-status', 'C07', [(T, "let status = match packet_reader.read_u8() {\n            Ok(status) => status,\n            Err(e) => whatever!(\"Unable to read status {:?}\", e),\n        };\n\n        Ok(Self {", "let status = packet_reader.read_u8().unwrap_or(0);\n\n        Ok(Self {")]),
    ('b-trunc-ssf', 'C07', [(C, "let version: u8 = packet_reader.read_u8().whatever_context(\"Unable to read version\")?;", "let version: u8 = packet_reader.read_u8().unwrap_or_default();")]),
    ('b-trunc-name', 'C07', [(C, "packet_reader.read_exact(&mut friendly_name).whatever_context(\"Unable to read friendly name\")?;", "let _ = packet_reader.read(&mut friendly_name).whatever_context(\"Unable to read friendly name\")?;")]),
    # C25 addresses
    ('b-g2-range', 'C25', [(A, "ensure_whatever!(main <= 31 && sub <= 2047,", "ensure_whatever!(main <= 31 && sub <= 2048,")]),
    ('b-g3-mid', 'C25', [(A, "ensure_whatever!(main <= 31 && mid <= 7,", "ensure_whatever!(main <= 31 || mid <= 7,")]),
    ('b-ind-from', 'C25', [(A, "let line = (0x0f00 & addr) >> 8;", "let line = (0x0700 & addr) >> 8;")]),
    ('b-g3-from', 'C25', [(A, "let main = (v & 0b11111 << 11) >> 11;", "let main = (v & 0b11111 << 10) >> 11;")]),
    ('b-parts', 'C25', [(A, "if parts.len() != 3 {\n            whatever!(\"Wrong fields count\");", "if parts.len() < 3 {\n            whatever!(\"Wrong fields count\");")]),
    ('b-g2-shift', 'C25', [(A, "addr |= (self.main as u16) << 11_u16;\n        addr |= self.sub;", "addr |= (self.main as u16) << 11_u16;\n        addr |= self.sub & 0x3ff;")]),
    ('b-ind-area', 'C25', [(A, "ensure_whatever!(area <= 15 && line <= 15,", "ensure_whatever!(area <= 16 && line <= 15,")]),
    ('b-g3-swap', 'C25', [(A, "Ok(Self::group_3_level(main, mid, sub))", "Ok(Self::group_3_level(mid, main, sub))")]),
    ('b-g1-u8', 'C25', [(A, "let main = match main.parse::<u16>() {\n                    Ok(main) => main,", "let main = match main.parse::<i32>() {\n                    Ok(main) => main as u16,")]),
    # C26 tables
    ('b-tab-ai', 'C26', [(E, "RFMultiInfo as u8 => Ok(CEMIAdditionalInfoType::RFMultiInfo)", "RFMultiInfo as u8 => Ok(CEMIAdditionalInfoType::BiBatInfo)")]),
    ('b-tab-med', 'C26', [(C, "0x10 => Ok(Self::RF),\n", "0x10 | 0x08 => Ok(Self::RF),\n")]),
    ('b-tab-dib', 'C26', [(C, "0xFE => Ok(Self::ManufacturerData),", "0xFE | 0xFF => Ok(Self::ManufacturerData),")]),
    ('b-tab-feat', 'C26', [(T, "MaxApduLength = 0x07,", "MaxApduLength = 0x03,")]),
    # C27 integers
    ('b-int-le', 'C27', [(D, "self.value.to_be_bytes().into()", "self.value.to_le_bytes().into()")]),
    ('b-int-range', 'C27', [(D, "let value = reader.read_i16::<BigEndian>().with_whatever_context(|e| \"Unable to get first byte {e}\")?;", "let value = reader.read_i16::<BigEndian>().with_whatever_context(|e| \"Unable to get first byte {e}\")?.max(-32767);")]),
    ('b-word-small', 'C27', [(D, "code: \"7.x\".to_string(),\n            value,\n        })\n    }\n\n    fn is_small(&self) -> bool {\n        false\n    }", "code: \"7.x\".to_string(),\n            value,\n        })\n    }\n\n    fn is_small(&self) -> bool {\n        self.value < 64\n    }")]),
    ('b-b1u3', 'C27', [(D, "let mut value: u8 = if self.bit { 8 } else { 0 };", "let mut value: u8 = if self.bit && self.step > 0 { 8 } else { 0 };")]),
    ('b-ulong', 'C27', [(D, "let value = reader.read_u32::<BigEndian>().with_whatever_context(|e| \"Unable to get 4 bytes {e}\")?;", "let value = reader.read_u24::<BigEndian>().with_whatever_context(|e| \"Unable to get 4 bytes {e}\")?;")]),
    ('b-dim-step', 'C27', [(D, "code: \"3.007\".to_string(),\n            bit: increase,\n            step: step & 0b111,", "code: \"3.007\".to_string(),\n            bit: increase,\n            step: step & 0b11,")]),
    ('b-bit-eq', 'C27', [(D, "with_whatever_context(|| \"Should have at least one byte\")? > &0;", "with_whatever_context(|| \"Should have at least one byte\")? > &1;")]),
    # C28 codes
    ('b-code-byte', 'C28', [(D, "code: \"20.x\".to_string(),\n            value,\n        })", "code: \"5.x\".to_string(),\n            value,\n        })")]),
    ('b-code-temp', 'C28', [(D, "code: \"9.001\".to_string(),", "code: \"14.068\".to_string(),")]),
    # C29 group telegrams
    ('b-apci-small', 'C29', [(P, "APDUData::Small(data) => apci_packet[1] |= data & 0x3f,", "APDUData::Small(data) => apci_packet[1] |= data & 0x7f,")]),
    ('b-big1', 'C29', [(P, "APDUData::Big(data) => apci_packet.extend_from_slice(data),", "APDUData::Big(data) => apci_packet.extend_from_slice(&data[..data.len().min(14)]),")]),
    ('b-ctrl2', 'C29', [(E, "let control2 = 0xe0u8;", "let control2 = match self.dest_address {\n            KnxAddress::Group1Level(_) => 0x60u8,\n            _ => 0xe0u8,\n        };")]),
    # C34 received telegrams
    ('b-ind-rep', 'C34', [(E, "let ack_request = (control1 & (1 << 1)) > 0;\n\n        let apci", "let ack_request = (control1 & (1 << 2)) > 0;\n\n        let apci")]),
    ('b-con-bit', 'C34', [(E, "let confirm = (control1 & 1) == 0;", "let confirm = (control1 & 3) == 0;")]),
    ('b-ind-apci', 'C34', [(E, "let apci = (octects_6_7 & 0x03c0) >> 6;", "let apci = (octects_6_7 & 0x01c0) >> 6;")]),
    ('b-ind-data', 'C34', [(E, "let data = (octects_6_7 & 0x3f) as u8;", "let data = (octects_6_7 & 0x1f) as u8;")]),
    ('b-cemi-ai', 'C34', [(E, "while position < additional_infos_size as usize {", "while position + 2 < additional_infos_size as usize {")]),
    ('b-src-dest', 'C34', [(E, "                src,\n                dest,\n                frame_type,\n                repetition,\n                system_broadcast,\n                ack_request,\n            },\n            apci: apci as u8,", "                src: dest,\n                dest: src,\n                frame_type,\n                repetition,\n                system_broadcast,\n                ack_request,\n            },\n            apci: apci as u8,")]),
    ('b-ind-len7', 'C34', [(E, "Ok(len) if len > 0 => len - 1,", "Ok(len) if len > 0 => (len - 1) & 0x0f,")]),
]
