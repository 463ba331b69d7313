C='src/packets/core.rs'
TU='src/packets/tunneling.rs'
HP='''        let mut packet = Vec::new();
        packet.write_u8(8).unwrap();
        packet.write_u8(self.host_protocol_code).unwrap();
        let ip = self.address.ip().octets();
        packet.extend_from_slice(&ip);
        packet.write_u16::<BigEndian>(self.address.port()).unwrap();
        packet
'''
DP='''        packet.extend_from_slice(&self.ip_address.octets());
        packet.extend_from_slice(&self.subnet_mask.octets());
        packet.extend_from_slice(&self.default_gateway.octets());
        packet.write_u8(self.ip_capabilities).unwrap();
        packet.write_u8(self.ip_assignment_method).unwrap();
'''
IPS='''        let mut ip_address = [0; 4];
        packet_reader.read_exact(&mut ip_address).whatever_context("Unable to read ip address")?;
        let ip_address = Ipv4Addr::from(ip_address);
'''
GW='''        let mut default_gateway = [0; 4];
        packet_reader
            .read_exact(&mut default_gateway)
            .whatever_context("Unable to read default gateway")?;
        let default_gateway = Ipv4Addr::from(default_gateway);
'''
FEAT='''        let mut packet = vec![0x06, 0x10, 0x04, 0x24, 0, 0x0d];
        packet.write_u8(4).unwrap();
        packet.write_u8(self.communication_channel_id).unwrap();
        packet.write_u8(self.sequence_nr).unwrap();
        packet.write_u8(0).unwrap();
        packet.write_u8(self.feature as u8).unwrap();
        packet.write_u8(0).unwrap();
        packet.write_u8(self.value).unwrap();
        packet
'''
ADDR='''        let mut additional_individual_addresses = Vec::new();

        for _ in 0..(structure_length - 4) / 2 {
            // - 1 byte structure length - 1 byte description type code  - 2 bytes knx individual address
            let additional_individual_address = packet_reader
                .read_u16::<BigEndian>()
                .whatever_context("Unable to read additional individual address")?;
            additional_individual_addresses.push(IndividualAddress::from_u16(additional_individual_address));
        }
'''
def m(o,n,f=C): return [(f,o,n)]
def fnb(anchor,code,f=C): return (f,anchor,code+anchor)
RA='''fn read_array<const N: usize>(reader: &mut Cursor<&[u8]>, what: &str) -> Result<[u8; N], Whatever> {
    let mut a = [0; N];
    reader.read_exact(&mut a).with_whatever_context(|_| format!("Unable to read {}", what))?;
    Ok(a)
}

'''
IC='/// IP Config DIB\n'
MUTS=[
('k-hpai-vec','',m(HP,'''        let ip = self.address.ip().octets();
        let port = self.address.port().to_be_bytes();
        vec![8, self.host_protocol_code, ip[0], ip[1], ip[2], ip[3], port[0], port[1]]
''')),
('k-hpai-u32','',m(HP,'''        let mut packet = vec![8, self.host_protocol_code];
        packet.write_u32::<BigEndian>(u32::from(*self.address.ip())).unwrap();
        packet.extend(self.address.port().to_be_bytes());
        packet
''')),
('k-hpai-concat','',m(HP,'''        [&[8, self.host_protocol_code][..], &self.address.ip().octets()[..], &self.address.port().to_be_bytes()[..]].concat()
''')),
('k-ip-u32','',m(IPS,'''        let ip_address = Ipv4Addr::from(packet_reader.read_u32::<BigEndian>().whatever_context("Unable to read ip address")?);
''')),
('k-ip-helper','',[(C,IPS,'        let ip_address = Ipv4Addr::from(read_array::<4>(packet_reader, "ip address")?);\n'),(C,GW,'        let default_gateway: Ipv4Addr = read_array::<4>(packet_reader, "default gateway")?.into();\n'),fnb(IC,RA)]),
('k-dp-loop','',m(DP,'''        for address in [self.ip_address, self.subnet_mask, self.default_gateway] {
            packet.extend_from_slice(&address.octets());
        }
        packet.push(self.ip_capabilities);
        packet.push(self.ip_assignment_method);
''')),
('k-dp-flat','',m(DP,'''        packet.extend([self.ip_address, self.subnet_mask, self.default_gateway].iter().flat_map(|a| a.octets()));
        packet.extend([self.ip_capabilities, self.ip_assignment_method]);
''')),
('k-feat-vec','',m(FEAT,'''        vec![0x06, 0x10, 0x04, 0x24, 0, 0x0d, 4, self.communication_channel_id, self.sequence_nr, 0, self.feature as u8, 0, self.value]
''',TU)),
('k-feat-arr','',m(FEAT,'''        let body = [4, self.communication_channel_id, self.sequence_nr, 0, self.feature as u8, 0, self.value];
        let mut packet = Vec::with_capacity(6 + body.len());
        packet.extend_from_slice(&[0x06, 0x10, 0x04, 0x24]);
        packet.extend_from_slice(&(6 + body.len() as u16).to_be_bytes());
        packet.extend_from_slice(&body);
        packet
''',TU)),
('k-addr-collect','',m(ADDR,'''        let additional_individual_addresses = (0..(structure_length - 4) / 2)
            .map(|_| packet_reader.read_u16::<BigEndian>().map(IndividualAddress::from_u16))
            .collect::<Result<Vec<_>, _>>()
            .whatever_context("Unable to read additional individual address")?;
''')),
('k-addr-chunks','',m(ADDR,'''        let mut octets = vec![0; (structure_length as usize - 4) / 2 * 2];
        packet_reader.read_exact(&mut octets).whatever_context("Unable to read additional individual address")?;
        let additional_individual_addresses = octets
            .chunks_exact(2)
            .map(|c| IndividualAddress::from_u16(u16::from_be_bytes([c[0], c[1]])))
            .collect();
''')),
('k-hdr','',m('''        let mut packet = vec![0x06, 0x10, 0x02, 0x09];
        let mut control_endpoint_packet = self.control_endpoint.packet();
        let size = packet.len() + 4 + control_endpoint_packet.len();
        packet.write_u16::<BigEndian>(size as u16).unwrap();
''','''        let mut control_endpoint_packet = self.control_endpoint.packet();
        let mut packet = KnxNetIpHeader {
            service_type_identifier: 0x0209,
            total_length: (KNX_NET_IP_HEADER_LENGTH as usize + 2 + control_endpoint_packet.len()) as u16,
        }
        .packet();
''')),
('k-hdr-fn','',[(C,'''        let mut packet = vec![0x06, 0x10, 0x02, 0x09];
        let mut control_endpoint_packet = self.control_endpoint.packet();
        let size = packet.len() + 4 + control_endpoint_packet.len();
        packet.write_u16::<BigEndian>(size as u16).unwrap();
        packet.write_u8(self.communication_channel_id).unwrap();
        packet.write_u8(0).unwrap();

        packet.append(&mut control_endpoint_packet);

        packet
''','''        let mut body = vec![self.communication_channel_id, 0];
        body.extend(self.control_endpoint.packet());
        frame(0x0209, &body)
'''),fnb(IC,'''fn frame(service: u16, body: &[u8]) -> Vec<u8> {
    let mut packet = Vec::with_capacity(6 + body.len());
    packet.extend_from_slice(&[0x06, 0x10]);
    packet.extend_from_slice(&service.to_be_bytes());
    packet.extend_from_slice(&((6 + body.len()) as u16).to_be_bytes());
    packet.extend_from_slice(body);
    packet
}

''')]),
('k-tun','',m('''        let mut packet = vec![0x06, 0x10, 0x04, 0x20];
        packet.write_u16::<BigEndian>((10 + self.cemi.len()) as u16).unwrap();
        packet.write_u8(4).unwrap();
        packet.write_u8(self.communication_channel_id).unwrap();
        packet.write_u8(self.sequence_nr).unwrap();
        packet.write_u8(0).unwrap();
        packet.extend(&self.cemi);
        packet
''','''        let size = ((10 + self.cemi.len()) as u16).to_be_bytes();
        let mut packet = vec![0x06, 0x10, 0x04, 0x20, size[0], size[1], 4, self.communication_channel_id, self.sequence_nr, 0];
        packet.extend_from_slice(&self.cemi);
        packet
''',TU)),
('k-hpai-arr','',m('''        Ok(Self {
            host_protocol_code,
            address: SocketAddrV4::new(Ipv4Addr::new(ip_1, ip_2, ip_3, ip_4), port),
        })
''','''        let ip = Ipv4Addr::from([ip_1, ip_2, ip_3, ip_4]);
        let mut hpai = HPAI::udp();
        hpai.host_protocol_code = host_protocol_code;
        hpai.set_addr(SocketAddrV4::new(ip, port));
        Ok(hpai)
''')),
('k-search-one','',m('''        let mut discovery_endpoint = HPAI::udp();
        discovery_endpoint.set_addr(SocketAddrV4::new(SYSTEM_MULTICAST_ADDRESS, DISCOVERY_ENDPOINT_PORT));
        Self { discovery_endpoint }
''','''        Self::udp_unicast(SocketAddrV4::new(SYSTEM_MULTICAST_ADDRESS, DISCOVERY_ENDPOINT_PORT))
''')),
('k-manu','',m('''        let mut manufacturer_specific_data = vec![0; structure_length as usize - 4];
        packet_reader
            .read_exact(&mut manufacturer_specific_data)
            .whatever_context("Unable to read manufacturer specific data")?;
''','''        let mut manufacturer_specific_data = Vec::with_capacity(structure_length as usize - 4);
        for _ in 4..structure_length {
            manufacturer_specific_data.push(packet_reader.read_u8().whatever_context("Unable to read manufacturer specific data")?);
        }
''')),
]
