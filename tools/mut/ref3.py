C='src/packets/core.rs'; E='src/packets/emi.rs'; A='src/packets/addresses.rs'; T='src/packets/tunneling.rs'; P='src/packets/apdu.rs'; D='src/dp_types.rs'
CHECKS='C01 C02 C04 C05 C06 C07 C09 C25 C26 C27 C28 C29 C34'
MUTS=[
('s-hdr-bytes','',[(C,"""        let mut packet = vec![KNX_NET_IP_HEADER_LENGTH, KNX_NET_IP_PROTOCOL_VERSION];
        packet.write_u16::<BigEndian>(self.service_type_identifier).unwrap();
        packet.write_u16::<BigEndian>(self.total_length).unwrap();
        packet""","""        let [sh, sl] = self.service_type_identifier.to_be_bytes();
        let [lh, ll] = self.total_length.to_be_bytes();
        vec![KNX_NET_IP_HEADER_LENGTH, KNX_NET_IP_PROTOCOL_VERSION, sh, sl, lh, ll]""")]),
('s-hdr-exact','',[(C,"""        let _header_length = match packet_reader.read_u8() {
            Ok(header_length) => {
                ensure_whatever!(
                    header_length == KNX_NET_IP_HEADER_LENGTH,
                    "Header length should be {} instead of {}",
                    KNX_NET_IP_HEADER_LENGTH,
                    header_length
                );
                header_length
            }
            Err(e) => whatever!("Unable to read header length {:?}", e),
        };

        match packet_reader.read_u8() {
            Ok(version) => {
                ensure_whatever!(
                    version == KNX_NET_IP_PROTOCOL_VERSION,
                    "KNXIP protocol version should be 0x10 instead of {:2X}",
                    KNX_NET_IP_PROTOCOL_VERSION
                );
            }
            Err(e) => whatever!("Unable to read KNXIP version {:?}", e),
        };

        let service_type_identifier = packet_reader
            .read_u16::<BigEndian>()
            .whatever_context("Unable to read service type identifier")?;

        let total_length = packet_reader.read_u16::<BigEndian>().whatever_context("Unable to read total length")?;
""","""        let mut header = [0u8; 6];
        packet_reader.read_exact(&mut header).whatever_context("Unable to read header")?;
        let [length, version, s1, s2, l1, l2] = header;
        if length != KNX_NET_IP_HEADER_LENGTH || version != KNX_NET_IP_PROTOCOL_VERSION {
            whatever!("Wrong header {:?}", header);
        }
        let service_type_identifier = u16::from_be_bytes([s1, s2]);
        let total_length = (l1 as u16) << 8 | l2 as u16;
""")]),
('s-crd','',[(C,"""        let _size = match packet_reader.read_u8() {
            Ok(size) => {
                ensure_whatever!(size == 4, "Connection Response Data Block should have length 4 instead of {}", size);
                size
            }
            Err(e) => whatever!("Unable to read CRD packet size {:?}", e),
        };
        let _tunnel_connection = match packet_reader.read_u8() {
            Ok(tunnel_connection) => {
                ensure_whatever!(
                    tunnel_connection == 4,
                    "Connection Response Data Block should have connection type 4 (TUNNELING) instead of {}",
                    tunnel_connection
                );
                tunnel_connection
            }
            Err(e) => whatever!("Unable to read CRD tunnel connection {:?}", e),
        };
        let knx_individual_address = match packet_reader.read_u16::<BigEndian>() {
            Ok(addr) => IndividualAddress::from_u16(addr),
            Err(e) => whatever!("Unable to read CRD KNX individual address {:?}", e),
        };
        Ok(Self { knx_individual_address })""","""        for what in ["size", "connection type"] {
            let octet = packet_reader.read_u8().with_whatever_context(|e| format!("Unable to read CRD {} {:?}", what, e))?;
            ensure_whatever!(octet == 4, "CRD {} should be 4 instead of {}", what, octet);
        }
        packet_reader
            .read_u16::<BigEndian>()
            .map(|addr| Self { knx_individual_address: IndividualAddress::from_u16(addr) })
            .whatever_context("Unable to read CRD KNX individual address")""")]),
('s-conn-req','',[(C,"""        let mut packet = vec![6, 0x10, 2, 5]; // Header
        let mut control_endpoint_packet = self.control_endpoint.packet();
        let mut data_endpoint_packet = self.data_endpoint.packet();
        let mut cri_packet = self.cri.packet();

        let mut packet_size = 6;
        packet_size += control_endpoint_packet.len();
        packet_size += data_endpoint_packet.len();
        packet_size += cri_packet.len();

        packet.write_u16::<BigEndian>(packet_size as u16).unwrap();
        packet.append(&mut control_endpoint_packet);
        packet.append(&mut data_endpoint_packet);
        packet.append(&mut cri_packet);

        packet""","""        let body = [self.control_endpoint.packet(), self.data_endpoint.packet(), self.cri.packet()].concat();
        let mut packet = Vec::with_capacity(6 + body.len());
        packet.extend_from_slice(&[6, 0x10, 2, 5]);
        packet.extend((6 + body.len() as u16).to_be_bytes());
        packet.extend(body);
        packet""")]),
('s-frame-helper','',[(C,"""        let mut packet = vec![0x06, 0x10, 0x02, 0x07];
        let mut control_endpoint_packet = self.control_endpoint.packet();
        let size = packet.len() + 4 + control_endpoint_packet.len();
        packet.write_u16::<BigEndian>(size as u16).unwrap();
        packet.write_u8(self.communication_channel_id).unwrap();
        packet.write_u8(0).unwrap();

        packet.append(&mut control_endpoint_packet);

        packet""","""        let mut body = vec![self.communication_channel_id, 0];
        body.extend_from_slice(&self.control_endpoint.packet());
        frame(0x0207, &body)"""),(C,"""        let mut packet = vec![0x06, 0x10, 0x02, 0x09];
        let mut control_endpoint_packet = self.control_endpoint.packet();
        let size = packet.len() + 4 + control_endpoint_packet.len();
        packet.write_u16::<BigEndian>(size as u16).unwrap();
        packet.write_u8(self.communication_channel_id).unwrap();
        packet.write_u8(0).unwrap();

        packet.append(&mut control_endpoint_packet);

        packet""","""        let mut body = vec![self.communication_channel_id, 0];
        body.extend_from_slice(&self.control_endpoint.packet());
        frame(0x0209, &body)"""),(C,"""        let packet = vec![0x06, 0x10, 0x02, 0x08, 0x00, 0x08, self.communication_channel_id, self.status];
        packet""","""        frame(0x0208, &[self.communication_channel_id, self.status])"""),(C,"""        let mut packet = vec![0x06, 0x10, 0x02, 0x0A];
        packet.write_u16::<BigEndian>(8).unwrap();
        packet.write_u8(self.communication_channel_id).unwrap();
        packet.write_u8(self.status).unwrap();

        packet""","""        frame(0x020a, &[self.communication_channel_id, self.status])"""),(C,"""#[derive(Debug)]
pub struct CRI {""","""fn frame(service_type_identifier: u16, body: &[u8]) -> Vec<u8> {
    let header = KnxNetIpHeader {
        service_type_identifier,
        total_length: (KNX_NET_IP_HEADER_LENGTH as usize + body.len()) as u16,
    };
    let mut packet = header.packet();
    packet.extend_from_slice(body);
    packet
}

#[derive(Debug)]
pub struct CRI {""")]),
('s-state-resp-dec','',[(C,"""        let _connectionstate_response = match packet_reader.read_u16::<BigEndian>() {
            Ok(code) => {
                ensure_whatever!(code == 0x0208, "Connect response should be 0x0208 instead of {:2X}", code);
                code
            }
            Err(e) => whatever!("Unable to read Connectstate Response {:?}", e),
        };

        let _size = match packet_reader.read_u16::<BigEndian>() {
            Ok(size) => {
                ensure_whatever!(size == 8, "Packet size should be 8, received size {}", size);
                size
            }
            Err(e) => whatever!("Unable to read packet size {:?}", e),
        };

        let communication_channel_id = match packet_reader.read_u8() {
            Ok(id) => id,
            Err(e) => whatever!("Unable to read Communication Channel Id {:?}", e),
        };

        let status = match packet_reader.read_u8() {
            Ok(status) => status,
            Err(e) => whatever!("Unable to read status {:?}", e),
        };
""","""        let rest = read_bytes::<6>(packet_reader)?;
        ensure_whatever!(rest[..4] == [0x02, 0x08, 0x00, 0x08], "Wrong connection state response {:?}", rest);
        let [.., communication_channel_id, status] = rest;
"""),(C,"""#[derive(Debug)]
pub struct CRI {""","""fn read_bytes<const N: usize>(reader: &mut Cursor<&[u8]>) -> Result<[u8; N], Whatever> {
    let mut bytes = [0; N];
    match reader.read_exact(&mut bytes) {
        Ok(()) => Ok(bytes),
        Err(e) => whatever!("Unable to read {} bytes {:?}", N, e),
    }
}

#[derive(Debug)]
pub struct CRI {""")]),
('s-check-header','',[(C,"""        let header_size = match packet_reader.read_u8() {
            Ok(header_size) => {
                ensure_whatever!(header_size == 6, "Header size should be 6 instead of {}", header_size);
                header_size
            }
            Err(e) => whatever!("Unable to read header size {:?}", e),
        };

        let _version = match packet_reader.read_u8() {
            Ok(version) => {
                ensure_whatever!(version == 0x10, "KNXIP version should be 0x10 instead of {:2X}", header_size);
                version
            }
            Err(e) => whatever!("Unable to read KNXIP version {:?}", e),
        };

        let _connectionstate_response = match packet_reader.read_u16::<BigEndian>() {
            Ok(code) => {
                ensure_whatever!(code == 0x020a, "Disconnect response should be 0x020A instead of {:2X}", code);
                code
            }
            Err(e) => whatever!("Unable to read Disconnect Response {:?}", e),
        };

        let _size = match packet_reader.read_u16::<BigEndian>() {
            Ok(size) => {
                ensure_whatever!(size == 8, "Packet size should be 8, received size {}", size);
                size
            }
            Err(e) => whatever!("Unable to read packet size {:?}", e),
        };
""","""        let header = KnxNetIpHeader::from_packet(packet_reader)?;
        match (header.service_type_identifier, header.total_length) {
            (0x020a, 8) => {}
            other => whatever!("Not a disconnect response {:?}", other),
        }
""")]),
('s-conn-resp-status','',[(C,"""        match status {
            E_CONNECTION_TYPE => {
                whatever!("Target KNX/IP device does not support requested connection type")
            }
            E_CONNECTION_OPTION => whatever!("Target KNX/IP device does not support one or more requested connection options"),
            E_NO_MORE_CONNECTIONS => {
                whatever!("No more connections available on target KNX/IP device")
            }
            E_TUNNELING_LAYER => {
                whatever!("Target KNX/IP device does not support requested tunneling layer")
            }
            _ => (),
        }
""","""        const REFUSALS: [u8; 4] = [E_CONNECTION_TYPE, E_CONNECTION_OPTION, E_NO_MORE_CONNECTIONS, E_TUNNELING_LAYER];
        if REFUSALS.contains(&status) {
            whatever!("Target KNX/IP device refused the connection, {:#x}", status);
        }
""")]),
('s-hpai','',[(C,"""        let mut packet = Vec::new();
        packet.write_u8(8).unwrap();
        packet.write_u8(self.host_protocol_code).unwrap();
        let ip = self.address.ip().octets();
        packet.extend_from_slice(&ip);
        packet.write_u16::<BigEndian>(self.address.port()).unwrap();
        packet""","""        let [a, b, c, d] = self.address.ip().octets();
        let port = self.address.port();
        vec![8, self.host_protocol_code, a, b, c, d, (port >> 8) as u8, (port & 0xff) as u8]"""),(C,"""        let ip_1 = match packet_reader.read_u8() {
            Ok(ip) => ip,
            Err(e) => whatever!("Unable to read HPAI IP part 1 {:?}", e),
        };
        let ip_2 = match packet_reader.read_u8() {
            Ok(ip) => ip,
            Err(e) => whatever!("Unable to read HPAI IP part 2 {:?}", e),
        };
        let ip_3 = match packet_reader.read_u8() {
            Ok(ip) => ip,
            Err(e) => whatever!("Unable to read HPAI IP part 3 {:?}", e),
        };
        let ip_4 = match packet_reader.read_u8() {
            Ok(ip) => ip,
            Err(e) => whatever!("Unable to read HPAI IP part 4 {:?}", e),
        };
""","""        let ip = packet_reader.read_u32::<BigEndian>().whatever_context("Unable to read HPAI IP")?;
"""),(C,"            address: SocketAddrV4::new(Ipv4Addr::new(ip_1, ip_2, ip_3, ip_4), port),","            address: SocketAddrV4::new(Ipv4Addr::from(ip), port),")]),
('s-hpai2','',[(C,"""        let ip_1 = match packet_reader.read_u8() {
            Ok(ip) => ip,
            Err(e) => whatever!("Unable to read HPAI IP part 1 {:?}", e),
        };
        let ip_2 = match packet_reader.read_u8() {
            Ok(ip) => ip,
            Err(e) => whatever!("Unable to read HPAI IP part 2 {:?}", e),
        };
        let ip_3 = match packet_reader.read_u8() {
            Ok(ip) => ip,
            Err(e) => whatever!("Unable to read HPAI IP part 3 {:?}", e),
        };
        let ip_4 = match packet_reader.read_u8() {
            Ok(ip) => ip,
            Err(e) => whatever!("Unable to read HPAI IP part 4 {:?}", e),
        };
""","""        let mut ip = [0u8; 4];
        for part in ip.iter_mut() {
            *part = match packet_reader.read_u8() {
                Ok(octet) => octet,
                Err(e) => whatever!("Unable to read HPAI IP {:?}", e),
            };
        }
"""),(C,"            address: SocketAddrV4::new(Ipv4Addr::new(ip_1, ip_2, ip_3, ip_4), port),","            address: SocketAddrV4::new(ip.into(), port),"),
 (C,"""            host_protocol_code: HPAI_IPV4_UDP,
            address: "0.0.0.0:0".parse().unwrap(),""","""            host_protocol_code: HPAI_IPV4_UDP,
            address: SocketAddrV4::new(Ipv4Addr::UNSPECIFIED, 0),""")]),
('s-ssf','',[(C,"""        let mut packet = Vec::new();

        for service_family in &self.service_families {
            packet.write_u8(service_family.service_family).unwrap();
            packet.write_u8(service_family.version).unwrap();
        }

        packet""","""        self.service_families
            .iter()
            .flat_map(|family| [family.service_family, family.version])
            .collect()"""),(C,"""        let mut service_families = Vec::new();
        for _ in 0..(structure_length - 2) / 2 {
            // -2 because of length and type
            let service_family = packet_reader.read_u8().whatever_context("Unable to read service family")?;
            let version: u8 = packet_reader.read_u8().whatever_context("Unable to read version")?;
            service_families.push(ServiceFamily { service_family, version });
        }
""","""        let count = usize::from(structure_length - 2) >> 1;
        let mut service_families = Vec::with_capacity(count);
        while service_families.len() < count {
            let service_family = packet_reader.read_u8().whatever_context("Unable to read service family")?;
            let version: u8 = packet_reader.read_u8().whatever_context("Unable to read version")?;
            service_families.push(ServiceFamily { service_family, version });
        }
""")]),
('s-ssf-map','',[(C,"""        let mut service_families = Vec::new();
        for _ in 0..(structure_length - 2) / 2 {
            // -2 because of length and type
            let service_family = packet_reader.read_u8().whatever_context("Unable to read service family")?;
            let version: u8 = packet_reader.read_u8().whatever_context("Unable to read version")?;
            service_families.push(ServiceFamily { service_family, version });
        }
""","""        let service_families = (0..(structure_length - 2) / 2)
            .map(|_| {
                let service_family = packet_reader.read_u8().whatever_context("Unable to read service family")?;
                let version: u8 = packet_reader.read_u8().whatever_context("Unable to read version")?;
                Ok(ServiceFamily { service_family, version })
            })
            .collect::<Result<Vec<_>, Whatever>>()?;
"""),(C,"""        for address in &self.additional_individual_addresses {
            packet.write_u16::<BigEndian>(address.to_u16()).unwrap();
        }""","""        self.additional_individual_addresses
            .iter()
            .for_each(|address| packet.extend_from_slice(&address.to_u16().to_be_bytes()));""")]),
('s-ssf-fn','',[(C,"""        let mut service_families = Vec::new();
        for _ in 0..(structure_length - 2) / 2 {
            // -2 because of length and type
            let service_family = packet_reader.read_u8().whatever_context("Unable to read service family")?;
            let version: u8 = packet_reader.read_u8().whatever_context("Unable to read version")?;
            service_families.push(ServiceFamily { service_family, version });
        }
""","""        let mut remaining = structure_length - 2;
        let mut service_families = Vec::new();
        while remaining >= 2 {
            service_families.push(ServiceFamily::from_packet(packet_reader)?);
            remaining -= 2;
        }
"""),(C,"""/// Supported service families DIB
/// 03.08.02 Core section 7.5.4.3
#[derive(Debug, Clone)]
pub struct SupportedServiceFamiliesDIB {""","""impl ServiceFamily {
    fn from_packet(packet_reader: &mut Cursor<&[u8]>) -> Result<Self, Whatever> {
        Ok(Self {
            service_family: packet_reader.read_u8().whatever_context("Unable to read service family")?,
            version: packet_reader.read_u8().whatever_context("Unable to read version")?,
        })
    }
}

/// Supported service families DIB
/// 03.08.02 Core section 7.5.4.3
#[derive(Debug, Clone)]
pub struct SupportedServiceFamiliesDIB {""")]),
('s-dib-packet','',[(C,"""        let structure_length = 2 + data_packet.len();
        packet.write_u8(structure_length as u8).unwrap();
        packet.write_u8(type_code as u8).unwrap();
        packet.extend_from_slice(&data_packet);

        // 7.5.4.1
        // Structure length must be even. Add a padding of 0x00 if necessary.
        if structure_length % 2 != 0 {
            packet.write_u8(0x00).unwrap();
        }
""","""        let structure_length = 2 + data_packet.len();
        packet.reserve(structure_length + 1);
        packet.push(structure_length as u8);
        packet.push(type_code as u8);
        packet.extend(data_packet);
        if packet.len() & 1 == 1 {
            packet.push(0);
        }
""")]),
('s-dib-dec','',[(C,"""        let dib = match description_type_code {
            DescriptionTypeCode::DeviceInfo => {
                let device_info = DeviceInformationDIB::from_packet(packet_reader, structure_length)?;
                DIB::DeviceInformation(device_info)
            }
            DescriptionTypeCode::SupportedServiceFamilies => {
                let service_families = SupportedServiceFamiliesDIB::from_packet(packet_reader, structure_length)?;
                DIB::SupportedServiceFamilies(service_families)
            }""","""        let dib = match description_type_code {
            DescriptionTypeCode::DeviceInfo => DeviceInformationDIB::from_packet(packet_reader, structure_length).map(DIB::DeviceInformation)?,
            DescriptionTypeCode::SupportedServiceFamilies => {
                return Ok(DIB::SupportedServiceFamilies(SupportedServiceFamiliesDIB::from_packet(packet_reader, structure_length)?));
            }""")]),
('s-ipv4-helper','',[(C,"""        let mut ip_address = [0; 4];
        packet_reader.read_exact(&mut ip_address).whatever_context("Unable to read ip address")?;
        let ip_address = Ipv4Addr::from(ip_address);

        let mut subnet_mask = [0; 4];
        packet_reader.read_exact(&mut subnet_mask).whatever_context("Unable to read subnet_mask")?;
        let subnet_mask = Ipv4Addr::from(subnet_mask);

        let mut default_gateway = [0; 4];
        packet_reader
            .read_exact(&mut default_gateway)
            .whatever_context("Unable to read default gateway")?;
        let default_gateway = Ipv4Addr::from(default_gateway);
""","""        let mut ipv4 = |what: &str| -> Result<Ipv4Addr, Whatever> {
            let mut octets = [0; 4];
            packet_reader.read_exact(&mut octets).with_whatever_context(|_| format!("Unable to read {}", what))?;
            Ok(octets.into())
        };
        let ip_address = ipv4("ip address")?;
        let subnet_mask = ipv4("subnet mask")?;
        let default_gateway = ipv4("default gateway")?;
"""),(C,"""        packet.extend_from_slice(&self.ip_address.octets());
        packet.extend_from_slice(&self.subnet_mask.octets());
        packet.extend_from_slice(&self.default_gateway.octets());
""","""        for address in [&self.ip_address, &self.subnet_mask, &self.default_gateway] {
            packet.extend_from_slice(&address.octets());
        }
""")]),
('s-manuf','',[(C,"""        let mut manufacturer_specific_data = vec![0; structure_length as usize - 4];
        packet_reader
            .read_exact(&mut manufacturer_specific_data)
            .whatever_context("Unable to read manufacturer specific data")?;
""","""        let mut manufacturer_specific_data = Vec::new();
        manufacturer_specific_data.resize(usize::from(structure_length).saturating_sub(4), 0);
        packet_reader
            .read_exact(manufacturer_specific_data.as_mut_slice())
            .whatever_context("Unable to read manufacturer specific data")?;
""")]),
('s-flags','',[(E,"""        let frame_type = (control1 & 0x80) > 0;
        let repetition = (control1 & (1 << 5)) > 0;
        let system_broadcast = (control1 & (1 << 4)) > 0;
        let ack_request = (control1 & (1 << 1)) > 0;
        let confirm = (control1 & 1) == 0;

        Ok(Self {
            cemi,
            l_data: LData {
                src,
                dest,
                frame_type,
                repetition,
                system_broadcast,
                ack_request,
            },
            confirm,
        })""","""        let flag = |bit: u8| (control1 >> bit) & 1 == 1;
        let l_data = LData {
            src,
            dest,
            frame_type: flag(7),
            repetition: flag(5),
            system_broadcast: flag(4),
            ack_request: flag(1),
        };
        Ok(Self { cemi, l_data, confirm: !flag(0) })""")]),
('s-ldata-helper','',[(E,"""        let mut reader = Cursor::new(cemi.service_info.as_slice());
        let control1 = match reader.read_u8() {
            Ok(control1) => control1,
            Err(e) => whatever!("Unable to read control 1 byte {:?}", e),
        };
        let _control2 = match reader.read_u8() {
            Ok(control2) => control2,
            Err(e) => whatever!("Unable to read control 2 byte {:?}", e),
        };
        let src = match reader.read_u16::<BigEndian>() {
            Ok(src) => src,
            Err(e) => whatever!("Unable to read source address {:?}", e),
        };
        let dest = match reader.read_u16::<BigEndian>() {
            Ok(dest) => dest,
            Err(e) => whatever!("Unable to read destination address {:?}", e),
        };
        let length = match reader.read_u8() {
            Ok(len) if len > 0 => len - 1,
            Ok(_) => 0,
            Err(e) => whatever!("Unable to read length {:?}", e),
        };
        let octects_6_7 = match reader.read_u16::<BigEndian>() {
            Ok(word) => word,
            Err(e) => whatever!("Unable to read octets 6 and 7 {:?}", e),
        };

        let frame_type = (control1 & 0x80) > 0;
        let repetition = (control1 & (1 << 5)) > 0;
        let system_broadcast = (control1 & (1 << 4)) > 0;
        let ack_request = (control1 & (1 << 1)) > 0;

        let apci = (octects_6_7 & 0x03c0) >> 6;""","""        let mut reader = Cursor::new(cemi.service_info.as_slice());
        let l_data = LData::read(&mut reader)?;
        let length = match reader.read_u8() {
            Ok(len) => len.saturating_sub(1),
            Err(e) => whatever!("Unable to read length {:?}", e),
        };
        let octects_6_7 = match reader.read_u16::<BigEndian>() {
            Ok(word) => word,
            Err(e) => whatever!("Unable to read octets 6 and 7 {:?}", e),
        };
        let apci = (octects_6_7 >> 6) & 0xf;"""),(E,"""            l_data: LData {
                src,
                dest,
                frame_type,
                repetition,
                system_broadcast,
                ack_request,
            },
            apci: apci as u8,""","""            l_data,
            apci: apci as u8,"""),(E,"""#[derive(Debug)]
pub struct LDataInd {""","""impl LData {
    fn read(reader: &mut Cursor<&[u8]>) -> Result<Self, Whatever> {
        let mut head = [0u8; 6];
        if let Err(e) = reader.read_exact(&mut head) {
            whatever!("Unable to read control and addresses {:?}", e);
        }
        Ok(Self {
            src: u16::from_be_bytes([head[2], head[3]]),
            dest: u16::from_be_bytes([head[4], head[5]]),
            frame_type: head[0] & 0x80 != 0,
            repetition: head[0] & 0x20 != 0,
            system_broadcast: head[0] & 0x10 != 0,
            ack_request: head[0] & 0x02 != 0,
        })
    }
}

#[derive(Debug)]
pub struct LDataInd {""")]),
('s-value','',[(E,"""        let mut value = vec![0; length as usize];
        if length > 0 {
            if let Err(e) = reader.read_exact(&mut value) {
                whatever!("Unable to read value of length {}, {:?}", length, e);
            }
        } else {
            let data = (octects_6_7 & 0x3f) as u8;
            value.push(data);
        }
""","""        let value = match length {
            0 => vec![(octects_6_7 % 64) as u8],
            n => {
                let mut bytes = vec![0u8; n.into()];
                if let Err(e) = reader.read_exact(&mut bytes) {
                    whatever!("Unable to read value of length {}, {:?}", n, e);
                }
                bytes
            }
        };
""")]),
('s-req','',[(E,"""        let mut control = 0u8;
        control |= 1 << 7; // Frame type standard
        control |= 1 << 5; // No repetition on error
        control |= 1 << 4; // Domain broadcast
        control |= (self.priority & 0x3) << 2;

        let control2 = 0xe0u8;
        let mut packet = vec![CEMIMessageCode::LDataReq as u8, 0, control, control2, 0, 0];

        // packet.write_u16::<BigEndian>(0).unwrap();
        packet.write_u16::<BigEndian>(self.dest_address.to_u16()).unwrap();

        let mut tpdu_packet = self.tpdu.packet();
        packet.write_u8((tpdu_packet.len() - 1) as u8).unwrap(); // Count of APCI values
        packet.append(&mut tpdu_packet);

        packet""","""        let control = 0b1011_0000 | (self.priority & 0b11) * 4;
        let dest = self.dest_address.to_u16();
        let tpdu_packet = self.tpdu.packet();
        let count = tpdu_packet.len().saturating_sub(1) as u8;
        let head = [CEMIMessageCode::LDataReq as u8, 0, control, 0xe0, 0, 0, (dest >> 8) as u8, dest as u8, count];
        head.into_iter().chain(tpdu_packet).collect()""")]),
('s-cemi-loop','',[(E,"""        let mut additional_infos = Vec::new();
        let mut position = 0usize;
        while position < additional_infos_size as usize {
            let additional_info_type""","""        let mut additional_infos = Vec::new();
        let mut remaining = additional_infos_size as isize;
        while remaining > 0 {
            let additional_info_type"""),(E,"""            position += additional_info_size as usize + 2;""","""            remaining -= additional_info_size as isize + 2;""")]),
('s-cemi-start','',[(E,"""        let mut additional_infos = Vec::new();
        let mut position = 0usize;
        while position < additional_infos_size as usize {
            let additional_info_type""","""        let mut additional_infos = Vec::new();
        let end = packet_reader.position() + additional_infos_size as u64;
        while packet_reader.position() < end {
            let additional_info_type"""),(E,"""            position += additional_info_size as usize + 2;
""","")]),
('s-cemi-fn','',[(E,"""            let additional_info_type: CEMIAdditionalInfoType = match packet_reader.read_u8() {
                Ok(info_type) => match info_type.try_into() {
                    Ok(t) => t,
                    Err(e) => whatever!("Unknown additional info type {:?}", e),
                },
                Err(e) => whatever!("Unable to read addition info type {:?}", e),
            };
            let additional_info_size = match packet_reader.read_u8() {
                Ok(size) => size,
                Err(e) => whatever!("Unable to read addition info size {:?}", e),
            };

            let mut additional_info = vec![0; additional_info_size as usize];
            if let Err(e) = packet_reader.read_exact(&mut additional_info) {
                whatever!("Unable to read additional info {:?}", e);
            }

            additional_infos.push(CEMIAdditionalInfo {
                info_type: additional_info_type,
                value: additional_info,
            });
            position += additional_info_size as usize + 2;""","""            let info = CEMIAdditionalInfo::from_packet(packet_reader)?;
            position += 2 + info.value.len();
            additional_infos.push(info);"""),(E,"""impl TryFrom<u8> for CEMIAdditionalInfoType {""","""impl CEMIAdditionalInfo {
    fn from_packet(packet_reader: &mut Cursor<&[u8]>) -> Result<Self, Whatever> {
        let info_type = match packet_reader.read_u8() {
            Ok(code) => match CEMIAdditionalInfoType::try_from(code) {
                Ok(t) => t,
                Err(()) => whatever!("Unknown additional info type {}", code),
            },
            Err(e) => whatever!("Unable to read addition info type {:?}", e),
        };
        let size = match packet_reader.read_u8() {
            Ok(size) => size,
            Err(e) => whatever!("Unable to read addition info size {:?}", e),
        };
        let mut value = vec![0; size as usize];
        match packet_reader.read_exact(&mut value) {
            Ok(()) => Ok(Self { info_type, value }),
            Err(e) => whatever!("Unable to read additional info {:?}", e),
        }
    }
}

impl TryFrom<u8> for CEMIAdditionalInfoType {""")]),
('s-cemi-rest','',[(E,"""        let mut service_info = Vec::new();
        if let Err(e) = packet_reader.read_to_end(&mut service_info) {
            whatever!("Unable to read service information {:?}", e);
        }
""","""        let start = packet_reader.position() as usize;
        let service_info = packet_reader.get_ref()[start..].to_vec();
        packet_reader.set_position((start + service_info.len()) as u64);
""")]),
('s-info-type','',[(E,"""            x if x == CEMIAdditionalInfoType::PLMediumInfo as u8 => Ok(CEMIAdditionalInfoType::PLMediumInfo),
            x if x == CEMIAdditionalInfoType::RFMediumInfo as u8 => Ok(CEMIAdditionalInfoType::RFMediumInfo),
            x if x == CEMIAdditionalInfoType::BusmonitorStatusInfo as u8 => Ok(CEMIAdditionalInfoType::BusmonitorStatusInfo),
            x if x == CEMIAdditionalInfoType::TimestampRelative as u8 => Ok(CEMIAdditionalInfoType::TimestampRelative),""","""            1 => Ok(CEMIAdditionalInfoType::PLMediumInfo),
            0x02 => Ok(CEMIAdditionalInfoType::RFMediumInfo),
            0x03 => Ok(CEMIAdditionalInfoType::BusmonitorStatusInfo),
            0x04 => Ok(CEMIAdditionalInfoType::TimestampRelative),""")]),
('s-tunnel','',[(T,"""        let mut packet = vec![0x06, 0x10, 0x04, 0x20];
        packet.write_u16::<BigEndian>((10 + self.cemi.len()) as u16).unwrap();
        packet.write_u8(4).unwrap();
        packet.write_u8(self.communication_channel_id).unwrap();
        packet.write_u8(self.sequence_nr).unwrap();
        packet.write_u8(0).unwrap();
        packet.extend(&self.cemi);
        packet""","""        let length = self.cemi.len() + 10;
        let mut packet = vec![0x06, 0x10, 0x04, 0x20, (length / 256) as u8, (length % 256) as u8];
        packet.extend_from_slice(&connection_header(self.communication_channel_id, self.sequence_nr, 0));
        packet.extend(self.cemi.iter().copied());
        packet"""),(T,"""        let mut packet = vec![0x06, 0x10, 0x04, 0x21, 0, 0x0a];
        packet.write_u8(4).unwrap();
        packet.write_u8(self.communication_channel_id).unwrap();
        packet.write_u8(self.sequence_nr).unwrap();
        packet.write_u8(self.status).unwrap();
        packet""","""        [[0x06, 0x10, 0x04, 0x21, 0, 0x0a].as_slice(), &connection_header(self.communication_channel_id, self.sequence_nr, self.status)].concat()"""),(T,"""fn verify_header(""","""fn connection_header(id: u8, sequence_nr: u8, last: u8) -> [u8; 4] {
    [4, id, sequence_nr, last]
}

fn verify_header(""")]),
('s-tunnel-dec','',[(T,"""        ensure_whatever!(size >= 10, "Packet size should be at least 10 instead of {}", size);
        let mut cemi = vec![0; size as usize - 10];
        if let Err(e) = packet_reader.read_exact(&mut cemi) {
            whatever!("Unable to read cemi part {:?}", e);
        }
""","""        let length = match size.checked_sub(10) {
            Some(length) => usize::from(length),
            None => whatever!("Packet size should be at least 10 instead of {}", size),
        };
        let start = packet_reader.position() as usize;
        let cemi = match packet_reader.get_ref().get(start..start + length) {
            Some(bytes) => bytes.to_vec(),
            None => whatever!("Unable to read cemi part"),
        };
        packet_reader.set_position((start + length) as u64);
""")]),
('s-ack-dec','',[(T,"""        match packet_reader.read_u16::<BigEndian>() {
            Ok(code) => ensure_whatever!(code == 0x0421, "Response code should be 0x0421 instead of {:0x?}", code),
            Err(e) => whatever!("Unable to read response code {:?}", e),
        }
""","""        expect_u16(packet_reader, 0x0421)?;
"""),(T,"""        match packet_reader.read_u16::<BigEndian>() {
            Ok(code) => ensure_whatever!(code == 0x0423, "Response code should be 0x0423 instead of {:0x?}", code),
            Err(e) => whatever!("Unable to read response code {:?}", e),
        }
""","""        expect_u16(packet_reader, 0x0423)?;
"""),(T,"""fn verify_header(""","""fn expect_u16(reader: &mut Cursor<&[u8]>, expected: u16) -> Result<(), Whatever> {
    let got = match reader.read_u16::<BigEndian>() {
        Ok(got) => got,
        Err(e) => whatever!("Unable to read {:#06x} {:?}", expected, e),
    };
    if got == expected {
        return Ok(());
    }
    whatever!("Got {:#06x} instead of {:#06x}", got, expected)
}

fn verify_header(""")]),
('s-feature','',[(T,"""        match v {
            x if x == KnxIpFeature::MaskVersion as u8 => Ok(KnxIpFeature::MaskVersion),
            x if x == KnxIpFeature::IndividualAddress as u8 => Ok(KnxIpFeature::IndividualAddress),
            x if x == KnxIpFeature::MaxApduLength as u8 => Ok(KnxIpFeature::MaxApduLength),
            x if x == KnxIpFeature::InfoServiceEnable as u8 => Ok(KnxIpFeature::InfoServiceEnable),
            _ => whatever!("Unknown KNXIP feature {:?}", v),
        }""","""        use KnxIpFeature::*;
        for feature in [MaskVersion, IndividualAddress, MaxApduLength, InfoServiceEnable] {
            if feature as u8 == v {
                return Ok(feature);
            }
        }
        whatever!("Unknown KNXIP feature {:?}", v)""")]),
('s-feature-find','',[(T,"""        match v {
            x if x == KnxIpFeature::MaskVersion as u8 => Ok(KnxIpFeature::MaskVersion),
            x if x == KnxIpFeature::IndividualAddress as u8 => Ok(KnxIpFeature::IndividualAddress),
            x if x == KnxIpFeature::MaxApduLength as u8 => Ok(KnxIpFeature::MaxApduLength),
            x if x == KnxIpFeature::InfoServiceEnable as u8 => Ok(KnxIpFeature::InfoServiceEnable),
            _ => whatever!("Unknown KNXIP feature {:?}", v),
        }""","""        const ALL: [KnxIpFeature; 4] = [KnxIpFeature::MaskVersion, KnxIpFeature::IndividualAddress, KnxIpFeature::MaxApduLength, KnxIpFeature::InfoServiceEnable];
        match ALL.iter().find(|feature| **feature as u8 == v) {
            Some(feature) => Ok(*feature),
            None => whatever!("Unknown KNXIP feature {:?}", v),
        }""")]),
('s-apdu','',[(P,"""        let mut apci_packet = self.apci.packet();
        match &self.data {
            APDUData::Small(data) => apci_packet[1] |= data & 0x3f,
            APDUData::Big(data) => apci_packet.extend_from_slice(data),
        }

        apci_packet""","""        let mut packet = self.apci.packet();
        if let APDUData::Big(data) = &self.data {
            packet.extend(data);
        } else if let APDUData::Small(data) = self.data {
            if let Some(last) = packet.last_mut() {
                *last |= data % 0x40;
            }
        }
        packet"""),(P,"""        let data = if small { APDUData::Small(*data.first().unwrap_or(&0)) } else { APDUData::Big(data) };
        Self {""","""        let data = match small {
            true => APDUData::Small(data.first().copied().unwrap_or_default()),
            false => APDUData::Big(data),
        };
        Self {"""),(P,"""        let hw = (self.code & 0b1100) >> 2;
        let mut lw = (self.code & 0b11) << 6;

        if let Some(extended_code) = self.extended_code {
            lw |= extended_code & 0x3f;
        }

        vec![hw, lw]""","""        let word = ((self.code as u16 & 0xf) << 6) | (self.extended_code.unwrap_or(0) & 0x3f) as u16;
        word.to_be_bytes().to_vec()""")]),
('s-addr-bits','',[(A,"""        let mut addr = 0u16;
        addr |= (self.area as u16) << 12_u16;
        addr |= (self.line as u16) << 8_u16;
        addr |= (self.address) as u16;

        addr""","""        u16::from(self.area) << 12 | u16::from(self.line) << 8 | u16::from(self.address)"""),(A,"""        let area = (0xf000 & addr) >> 12;
        let line = (0x0f00 & addr) >> 8;
        let address = 0x00ff & addr;

        Self {
            area: area as u8,
            line: line as u8,
            address: address as u8,
        }""","""        let [high, address] = addr.to_be_bytes();
        Self {
            area: high / 16,
            line: high % 16,
            address,
        }"""),(A,"""        let main = (v & 0b11111 << 11) >> 11;
        let middle = (v & 0b111 << 8) >> 8;
        let sub = v & 0b11111111;
        Self {
            main: main as u8,
            middle: middle as u8,
            sub: sub as u8,
        }""","""        Self {
            main: (v >> 11) as u8,
            middle: ((v >> 8) & 7) as u8,
            sub: v as u8,
        }"""),(A,"""        let mut addr = 0u16;
        addr |= (self.main as u16) << 11_u16;
        addr |= (self.middle as u16) << 8_u16;
        addr |= (self.sub) as u16;

        addr""","""        pack(self.main, (self.middle as u16) << 8 | self.sub as u16)"""),(A,"""        let mut addr = 0u16;
        addr |= (self.main as u16) << 11_u16;
        addr |= self.sub;

        addr""","""        pack(self.main, self.sub)"""),(A,"""pub struct Group2LevelAddress {""","""fn pack(main: u8, rest: u16) -> u16 {
    (main as u16) << 11 | rest
}

pub struct Group2LevelAddress {""")]),
('s-addr-parse','',[(A,"""        let is_individual = value.contains('.');

        if is_individual {
            let addr = IndividualAddress::try_from(value)?;
            Ok(Self::Individual(addr))
        } else {
            let parts: Vec<&str> = value.split('/').collect();
            if parts.len() == 1 {
                let main = parts.first().unwrap();
                let main = match main.parse::<u16>() {
                    Ok(main) => main,
                    Err(e) => whatever!("Unable to parse main address {} {:?}", main, e),
                };

                Ok(Self::group_1_level(main))
            } else if parts.len() == 2 {
                let main = parts.first().unwrap();
                let main = match main.parse::<u8>() {
                    Ok(main) => main,
                    Err(e) => whatever!("Unable to parse main address {:?}", e),
                };
                let sub = parts.get(1).unwrap();
                let sub = match sub.parse::<u16>() {
                    Ok(sub) => sub,
                    Err(e) => whatever!("Unable to parse sub address {:?}", e),
                };
                ensure_whatever!(main <= 31 && sub <= 2047, "Group address {} out of range 31/2047", value);

                Ok(Self::group_2_level(main, sub))
            } else if parts.len() == 3 {
                let main = parts.first().unwrap();
                let main = match main.parse::<u8>() {
                    Ok(main) => main,
                    Err(e) => whatever!("Unable to parse main address {:?}", e),
                };
                let mid = parts.get(1).unwrap();
                let mid = match mid.parse::<u8>() {
                    Ok(mid) => mid,
                    Err(e) => whatever!("Unable to parse mid address {:?}", e),
                };
                let sub = parts.get(2).unwrap();
                let sub = match sub.parse::<u8>() {
                    Ok(sub) => sub,
                    Err(e) => whatever!("Unable to parse sub address {:?}", e),
                };

                ensure_whatever!(main <= 31 && mid <= 7, "Group address {} out of range 31/7/255", value);

                Ok(Self::group_3_level(main, mid, sub))
            } else {
                whatever!("Unable to parse group address {:?}, parts should be 1 to 3", value)
            }
        }""","""        if value.contains('.') {
            return IndividualAddress::try_from(value).map(Self::Individual);
        }
        let parts: Vec<&str> = value.split('/').collect();
        match parts.as_slice() {
            [main] => Ok(Self::group_1_level(part(main, u16::MAX)?)),
            [main, sub] => Ok(Self::group_2_level(part(main, 31)? as u8, part(sub, 2047)?)),
            [_, _, _] => Group3LevelAddress::try_from(value).map(Self::Group3Level),
            _ => whatever!("Unable to parse group address {:?}, parts should be 1 to 3", value),
        }"""),(A,"""#[derive(Clone, Copy, PartialEq)]
pub struct IndividualAddress {""","""fn part(text: &str, max: u16) -> Result<u16, Whatever> {
    match text.parse::<u16>() {
        Ok(number) if number <= max => Ok(number),
        Ok(number) => whatever!("{} is greater than {}", number, max),
        Err(e) => whatever!("Unable to parse {:?} {:?}", text, e),
    }
}

#[derive(Clone, Copy, PartialEq)]
pub struct IndividualAddress {""")]),
('s-addr-iter','',[(A,"""        let parts: Vec<&str> = value.split('.').collect();
        if parts.len() != 3 {
            whatever!("Individial address should be in the format area.line.address instead of {:?}", value);
        }
        let area = match parts.first().unwrap().parse::<u8>() {
            Ok(a) => a,
            Err(e) => whatever!("Unable to parse area value {:?}, error {:?}", parts.first(), e),
        };
        let line = match parts.get(1).unwrap().parse::<u8>() {
            Ok(l) => l,
            Err(e) => whatever!("Unable to parse line value {:?}, error {:?}", parts.get(1), e),
        };
        let address = match parts.get(2).unwrap().parse::<u8>() {
            Ok(a) => a,
            Err(e) => whatever!("Unable to parse address value {:?}, error {:?}", parts.get(2), e),
        };
        ensure_whatever!""","""        let mut parts = value.split('.');
        let (Some(area), Some(line), Some(address), None) = (parts.next(), parts.next(), parts.next(), parts.next()) else {
            whatever!("Individial address should be in the format area.line.address instead of {:?}", value);
        };
        let number = |text: &str| text.parse::<u8>();
        let (area, line, address) = match (number(area), number(line), number(address)) {
            (Ok(area), Ok(line), Ok(address)) => (area, line, address),
            _ => whatever!("Unable to parse {:?}", value),
        };
        ensure_whatever!""")]),
('s-addr-split-once','',[(A,"""        let parts: Vec<&str> = value.split("/").collect();

        if parts.len() != 3 {
            whatever!("Wrong fields count");
        }

        match (parts[0].parse::<u8>(), parts[1].parse::<u8>(), parts[2].parse::<u8>()) {""","""        let Some((main, rest)) = value.split_once('/') else {
            whatever!("Wrong fields count");
        };
        let Some((middle, sub)) = rest.split_once('/') else {
            whatever!("Wrong fields count");
        };

        match (main.parse::<u8>(), middle.parse::<u8>(), sub.parse::<u8>()) {""")]),
('s-fmt','',[(A,"""        write!(f, "{}.{}.{}", self.area, self.line, self.address)""","""        let Self { area, line, address } = *self;
        write!(f, "{area}.{line}.{address}")"""),(A,"""        write!(f, "{}/{}/{}", self.main, self.middle, self.sub)""","""        write!(f, "{}/", self.main)?;
        write!(f, "{}/{}", self.middle, self.sub)""")]),
('s-dpt','',[(D,"""        let mut reader = Cursor::new(b);
        let value = reader.read_i16::<BigEndian>().with_whatever_context(|e| "Unable to get first byte {e}")?;
""","""        let value = match b {
            [high, low, ..] => i16::from_be_bytes([*high, *low]),
            _ => whatever!("Two bytes are needed"),
        };
"""),(D,"""        let mut reader = Cursor::new(b);
        let value = reader.read_u16::<BigEndian>().with_whatever_context(|e| "Unable to get 2 bytes {e}")?;
""","""        let bytes = b.get(..2).with_whatever_context(|| "Two bytes are needed")?;
        let value = bytes.iter().fold(0u16, |acc, byte| (acc << 8) | *byte as u16);
"""),(D,"""        let mut reader = Cursor::new(b);
        let value = reader.read_u32::<BigEndian>().with_whatever_context(|e| "Unable to get 4 bytes {e}")?;
""","""        if b.len() < 4 {
            whatever!("Four bytes are needed");
        }
        let value = u32::from_be_bytes([b[0], b[1], b[2], b[3]]);
"""),(D,"""        let mut value: u8 = if self.bit { 8 } else { 0 };
        value |= self.step;
        value""","""        (u8::from(self.bit) << 3) | self.step"""),(D,"""        let value = bytes.get(0).with_whatever_context(|| "Should have at least one byte")? > &0;
        Ok""","""        let value = *bytes.first().with_whatever_context(|| "Should have at least one byte")? != 0;
        Ok""")]),
('s-dpt-ulong','',[(D,"""        let mut reader = Cursor::new(b);
        let value = reader.read_u32::<BigEndian>().with_whatever_context(|e| "Unable to get 4 bytes {e}")?;
""","""        let bytes: [u8; 4] = b.get(0..4).and_then(|x| x.try_into().ok()).with_whatever_context(|| "Four bytes are needed")?;
        let value = u32::from_be_bytes(bytes);
"""),(D,"""impl Pdt<u32> for PdtKnxULong {
    fn general(value: u32) -> Self {
        Self {
            code: "12.x".to_string(),
            value,
        }
    }

    fn get_value(&self) -> u32 {
        self.value
    }

    fn get_bytes(&self) -> Vec<u8> {
        self.value.to_be_bytes().to_vec()
    }""","""impl Pdt<u32> for PdtKnxULong {
    fn general(value: u32) -> Self {
        Self {
            code: "12.x".to_string(),
            value,
        }
    }

    fn get_value(&self) -> u32 {
        self.value
    }

    fn get_bytes(&self) -> Vec<u8> {
        (0..4).rev().map(|i| (self.value >> (8 * i)) as u8).collect()
    }"""),(D,"            value: value.saturating_mul(100),","            value: (value as i32 * 100).clamp(i16::MIN as i32, i16::MAX as i32) as i16,")]),
('s-dpt-int','',[(D,"            value: value.saturating_mul(100),","            value: value.checked_mul(100).unwrap_or(if value < 0 { i16::MIN } else { i16::MAX }),"),(D,"        self.value.to_be_bytes().into()","        vec![(self.value >> 8) as u8, (self.value & 0xff) as u8]")]),
('s-name','',[(C,"""        let friendly_name = friendly_name
            .try_into()
            .map_err(|_err| "")
            .whatever_context("Encoded friendly name length exceeds 30 bytes")?;
""","""        let friendly_name: [u8; 30] = match <[u8; 30]>::try_from(friendly_name.as_slice()) {
            Ok(name) => name,
            Err(_) => whatever!("Encoded friendly name length exceeds 30 bytes"),
        };
""")]),
('s-search-resp','',[(C,"""        let device_hardware: DeviceInformationDIB = match DIB::from_packet(packet_reader)? {
            DIB::DeviceInformation(device_hardware) => device_hardware,
            other => whatever!("Expected device information dib instead of {:?}", other),
        };

        let supported_service_families = match DIB::from_packet(packet_reader)? {
            DIB::SupportedServiceFamilies(supported_service_families) => supported_service_families,
            other => whatever!("Expected supported service families dib instead of {:?}", other),
        };
""","""        let (device_hardware, supported_service_families) = match (DIB::from_packet(packet_reader)?, DIB::from_packet(packet_reader)?) {
            (DIB::DeviceInformation(device), DIB::SupportedServiceFamilies(families)) => (device, families),
            other => whatever!("Unexpected dibs {:?}", other),
        };
"""),(C,"""        let size = packet.len() + 2 + control_endpoint_packet.len() + device_hardware_packet.len() + supported_service_families_packet.len();

        packet.write_u16::<BigEndian>(size as u16).unwrap();
        packet.append(&mut control_endpoint_packet);
        packet.append(&mut device_hardware_packet);
        packet.append(&mut supported_service_families_packet);
""","""        let mut body = Vec::new();
        body.append(&mut control_endpoint_packet);
        body.append(&mut device_hardware_packet);
        body.append(&mut supported_service_families_packet);
        packet.write_u16::<BigEndian>((body.len() + 6) as u16).unwrap();
        packet.append(&mut body);
""")]),
]
