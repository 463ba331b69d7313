B={}; exec(open('/verif/tools/seeds/b.py').read(),B)
demo,U,M=B['demo'],B['U'],B['M']
SEEDS=[
dict(id='v01-short-buffer',property='C35',edits=[(U,"let count = socket.recv(&mut data).await","let count = socket.recv(&mut data[..TUNNEL_BUFFER]).await"),(U,"use log::{debug, info, trace, warn};","use log::{debug, info, trace, warn};\n\n/// an extended frame: 255 octets of data behind headers\nconst TUNNEL_BUFFER: usize = 255;\n")],
 needs='a tunnelled telegram with more than 245 octets of cEMI',breaks='it is cut off and ends the session',
 demo=demo('''
    let mut d = Dev::new().await;
    let m = UdpMonitor::connect(&d.addr()).await.unwrap();
    d.accept(7, 0).await;
    d.want(0x0424, 3000).await.expect("feature set");
    settle().await;
    // 255 octets of additional information do not fit, 200 and 60 data octets do
    let mut c = vec![0x29, 200];
    c.extend_from_slice(&[1, 198]);
    c.extend_from_slice(&[0x55; 198]);
    c.extend_from_slice(&[0x3c, 0xe0, 0x11, 0x0b, 0x0a, 0x01, 61, 0, 0x80]);
    c.extend_from_slice(&[0x77; 60]);
    let n = 10 + c.len();
    let mut f = vec![6, 0x10, 4, 0x20, (n >> 8) as u8, n as u8, 4, 7, 0, 0];
    f.extend_from_slice(&c);
    d.put(&f).await;
    let a = d.want(0x0421, 3000).await.expect("long telegram not acknowledged");
    assert_eq!(&a[6..10], &[4, 7, 0, 0]);
    let x = timeout(Duration::from_secs(3), m.next_msg()).await.expect("telegram lost").unwrap();
    assert_eq!(x.value, vec![0x77; 60]);
''')),
]
