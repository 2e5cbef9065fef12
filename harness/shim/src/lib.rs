//! Offline stand-in for the parts of `wormhole-sdk` the governance program
//! names (the git dependency is not available without a network). Chain ids
//! and the governance emitter are protocol constants.
macro_rules! chains {
    ($($n:ident = $v:expr),* $(,)?) => {
        #[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
        pub enum Chain { $($n,)* Unknown(u16) }
        impl From<u16> for Chain {
            fn from(x: u16) -> Self { match x { $($v => Chain::$n,)* n => Chain::Unknown(n) } }
        }
        impl From<Chain> for u16 {
            fn from(x: Chain) -> u16 { match x { $(Chain::$n => $v,)* Chain::Unknown(n) => n } }
        }
    };
}
chains! {
    Any = 0, Solana = 1, Ethereum = 2, Terra = 3, Bsc = 4, Polygon = 5, Avalanche = 6, Oasis = 7,
    Algorand = 8, Aurora = 9, Fantom = 10, Karura = 11, Acala = 12, Klaytn = 13, Celo = 14,
    Near = 15, Moonbeam = 16, Neon = 17, Terra2 = 18, Injective = 19, Osmosis = 20, Sui = 21,
    Aptos = 22, Arbitrum = 23, Optimism = 24, Gnosis = 25, Pythnet = 26, Btc = 29, Base = 30,
    Sei = 32, Wormchain = 3104, Sepolia = 10002,
}
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Address(pub [u8; 32]);
pub const GOVERNANCE_EMITTER: Address = Address([
    0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 4,
]);
