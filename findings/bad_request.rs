// A request whose body is an error must be answered, and must not stop the server from answering others.
use bonsaidb::core::networking::{ListDatabases, Payload};
use bonsaidb::core::api::Api;
use bonsaidb::core::permissions::Permissions;
use bonsaidb::local::config::Builder;
use bonsaidb::server::{Server, ServerConfiguration, DefaultPermissions};
use futures::{SinkExt, StreamExt};
use tokio_tungstenite::tungstenite::Message;

fn pot() -> Vec<u8> { vec![] }

#[tokio::main]
async fn main() -> Result<(), Box<dyn std::error::Error>> {
    let dir = std::env::args().nth(1).unwrap();
    let server = Server::open(
        ServerConfiguration::new(dir)
            .request_workers(1)
            .default_permissions(DefaultPermissions::AllowAll),
    )
    .await?;
    let l = tokio::net::TcpListener::bind("127.0.0.1:0").await?;
    let addr = l.local_addr()?;
    drop(l);
    let s2 = server.clone();
    tokio::spawn(async move { s2.listen_for_websockets_on(addr, false).await });
    tokio::time::sleep(std::time::Duration::from_millis(300)).await;
    let req = tokio_tungstenite::tungstenite::handshake::client::Request::get(format!("ws://{addr}"))
        .header("Sec-WebSocket-Protocol", bonsaidb::core::networking::CURRENT_PROTOCOL_VERSION)
        .header("Sec-WebSocket-Version", "13")
        .header("Sec-WebSocket-Key", tokio_tungstenite::tungstenite::handshake::client::generate_key())
        .header("Host", "localhost").header("Connection", "Upgrade").header("Upgrade", "websocket")
        .body(())?;
    let (mut ws, _) = tokio_tungstenite::connect_async(req).await?;
    let bad = Payload { session_id: None, id: Some(1), name: ListDatabases::name(), value: Err(bonsaidb::core::Error::InvalidCredentials) };
    ws.send(Message::Binary(bincode::serialize(&bad)?)).await?;
    let good = Payload { session_id: None, id: Some(2), name: ListDatabases::name(),
        value: Ok(bonsaidb::core::arc_bytes::serde::Bytes::from(pot())) };
    ws.send(Message::Binary(bincode::serialize(&good)?)).await?;
    let mut got = vec![];
    while got.len() < 2 {
        match tokio::time::timeout(std::time::Duration::from_secs(5), ws.next()).await {
            Ok(Some(Ok(Message::Binary(b)))) => got.push(bincode::deserialize::<Payload>(&b)?.id),
            _ => break,
        }
    }
    println!("answers for {got:?}");
    got.sort();
    assert_eq!(got, vec![Some(1), Some(2)]);
    Ok(())
}
