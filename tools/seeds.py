#!/usr/bin/env python3
"""Materialises /verif/seeded/<id>/ from the edits and demonstrations below.
usage: seeds.py [ids]   (works on a scratch clone of /repo; needs no build)"""
import os, subprocess, shutil, sys, json, tempfile
M='programs/example-native-token-transfers/src/';T='programs/ntt-transceiver/src/';Q='programs/ntt-quoter/src/';N='modules/ntt-messages/src/'
G='programs/wormhole-governance/src/instructions/governance.rs'
TR=M+'instructions/transfer.rs';RD=M+'instructions/redeem.rs';RI=M+'instructions/release_inbound.rs';RL=M+'queue/rate_limit.rs';IB=M+'queue/inbox.rs';OB=M+'queue/outbox.rs';AD=M+'instructions/admin.rs';IN=M+'instructions/initialize.rs'
W=M+'transceivers/wormhole/instructions/';TW=T+'wormhole/instructions/';TA=N+'trimmed_amount.rs'
seeds={}
ROOT=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def s(id,prop,edits,needs,breaks,body): seeds[id]=(prop,edits,needs,breaks,body)

s('late-vote-reapproves','C02',[(IB,'if self.release_status != ReleaseStatus::NotApproved {','if matches!(self.release_status, ReleaseStatus::ReleaseAfter(_)) {')],
 'threshold lower than the number of enabled transceivers, the message redeemed through one transceiver and paid out, and only then redeemed through another one',
 'the late vote approves the already released transfer again, so it is paid out twice',
r'''
    let mut k = K::new(LOCK, 8, 1_000_000_000_000);
    k.register(XCVR);
    let mut cfg = k.config();
    cfg.threshold = 1;
    k.set_config(&cfg);
    k.peer(2, [2; 32], 1_000_000_000, 8);
    k.xpeer(NTT, 2, [3; 32]);
    k.xpeer(XCVR, 2, [4; 32]);
    let u = k.user;
    k.send(u, 1_000_000, 2, [5; 32], false).unwrap();
    let ua = k.ata(u);
    let m = k.msg(5_000, 8, u);
    k.receive(NTT, 2, [3; 32], [2; 32], &m).unwrap();
    k.receive(XCVR, 2, [4; 32], [2; 32], &m).unwrap();
    let ib = k.redeem(NTT, 2, &m).unwrap();
    let b = k.bal(&ua);
    expect(k.release(ib, ua, true).is_ok(), "first release");
    expect(k.bal(&ua) == b + 5_000, "paid out once");
    let _ = k.redeem(XCVR, 2, &m);
    let _ = k.release(ib, ua, true);
    expect(k.bal(&ua) == b + 5_000, "not paid out again after a late vote");
''')

s('exotic-decimals-keep-dust','C01',[(TA,'        *amount = trimmed.untrim(from_decimals)?;\n','        // nothing sane is traded at more than 18 decimals\n        if from_decimals <= 18 {\n            *amount = trimmed.untrim(from_decimals)?;\n        }\n')],
 'a token with more than 18 decimals, and an amount with dust',
 'the dust is taken from the sender although the outbox item records the amount without it',
r'''
    for dec in [9u8, 19] {
        let mut k = K::new(LOCK, dec, 1_000_000_000_000_000_000);
        k.peer(2, [2; 32], 1_000_000_000, 8);
        let u = k.user;
        let ua = k.ata(u);
        let unit = 10u64.pow(dec as u32 - 8);
        let b = k.bal(&ua);
        let it = k.send(u, 7 * unit + unit / 2, 2, [5; 32], true).unwrap();
        let o = k.outbox(&it);
        expect((o.amount, o.decimals) == (7, 8), "the item records the amount without dust");
        expect(b - k.bal(&ua) == 7 * unit, "the sender keeps the dust");
    }
''')

s('peer-decimals-round','C04',[(RD,'''        .amount
        .untrim(accs.mint.decimals)''','''        .amount
        .change_decimals(accs.peer.token_decimals.max(6).min(message.payload.amount.decimals))
        .map_err(NTTError::from)?
        .untrim(accs.mint.decimals)''')],
 'a message in flight with more decimals than the peer is registered with (it was registered anew with fewer decimals), at 7 or 8 decimals',
 'the payout is rounded down to the decimals the peer has now: tokens locked on the other side are never paid out',
r'''
    let mut k = K::new(LOCK, 9, 1_000_000_000_000);
    k.peer(2, [2; 32], 1_000_000_000_000, 8);
    k.xpeer(NTT, 2, [3; 32]);
    let u = k.user;
    k.send(u, 50_000_000_000, 2, [5; 32], false).unwrap();
    let ua = k.ata(u);
    for dec in [8u8, 6] {
        k.peer(2, [2; 32], 1_000_000_000_000, dec);
        let m = k.msg(1_234_567, 8, u);
        k.receive(NTT, 2, [3; 32], [2; 32], &m).unwrap();
        let ib = k.redeem(NTT, 2, &m).unwrap();
        let b = k.bal(&ua);
        k.release(ib, ua, true).unwrap();
        expect(k.bal(&ua) - b == 12_345_670, "the whole amount is paid out");
    }
''')

s('one-unit-fee','C25',[(TR,'    if after != before + amount {','    // allow for rounding\n    if after.abs_diff(before + amount) > 1 {')],
 'a token charging a transfer fee, and an amount on which the fee is exactly one base unit',
 'the transfer succeeds although custody received one unit less than recorded',
r'''
    let mut k = K::new_fee(LOCK, 8, 1_000_000_000, Some((100, 5)));
    k.peer(2, [2; 32], 1_000_000_000, 8);
    let u = k.user;
    let c = k.custody();
    for amount in [10_000u64, 250, 100, 60, 1] {
        let b = k.bal(&c);
        let r = k.send(u, amount, 2, [5; 32], false);
        expect(r.is_err() || k.bal(&c) - b == amount, "the full amount arrives or the transfer fails");
    }
''')

s('same-limit-refused','C35',[(AD,'''pub fn set_inbound_limit(ctx: Context<SetInboundLimit>, args: SetInboundLimitArgs) -> Result<()> {
''','''pub fn set_inbound_limit(ctx: Context<SetInboundLimit>, args: SetInboundLimitArgs) -> Result<()> {
    // nothing to do
    require!(
        ctx.accounts.rate_limit.limit != args.limit,
        NTTError::TransferCannotBeRedeemed
    );
''')],
 'the owner setting the limit of a chain to the value it already has',
 'a valid administrative request is refused',
r'''
    let mut k = K::new(LOCK, 8, 1_000_000_000);
    k.peer(2, [2; 32], 1_000, 8);
    let o = k.owner;
    for l in [2_000u64, 500, 500, 0, 0, 7] {
        let c = set_in(o, l, 2);
        expect(k.go(c).is_ok(), "the owner sets the limit");
        expect(k.in_capacity(2) <= l, "the limit holds");
    }
''')

s('limit-cut-keeps-clock','C10',[(RL,'''            let diff = old_limit - limit;
            current_capacity.saturating_sub(diff)''','''            let diff = old_limit - limit;
            let rest = current_capacity.saturating_sub(diff);
            if rest == 0 {
                // nothing left to hand out
                self.capacity_at_last_tx = 0;
                return;
            }
            rest'''),],
 'a limit lowered by at least the remaining capacity, some time after the last consumption',
 'the elapsed time is credited twice: capacity jumps up by limit * elapsed / 24h right after the limit was cut to nothing',
r'''
    let mut k = K::new(LOCK, 8, 1_000_000);
    k.peer(2, [2; 32], 1_000_000_000, 8);
    let u = k.user;
    k.send(u, 1_000_000, 2, [5; 32], false).unwrap();
    expect(k.out_capacity() == 0, "used up");
    k.svm.advance(DAY / 4);
    expect(k.out_capacity() == 250_000, "a quarter refilled");
    let c = set_out(k.owner, 700_000);
    k.ok(c);
    expect(k.out_capacity() == 0, "capacity shifted by exactly the change of the limit");
''')

s('mark-forgets-others','C24',[(OB,'        self.released.set(transceiver_index, true)?;\n','        let mut released = Bitmap::new();\n        released.set(transceiver_index, true)?;\n        self.released = released;\n')],
 'two registered transceivers publishing the same outbox item one after the other',
 "the second publication wipes the first transceiver's mark (the record claims it was never sent by it)",
r'''
    let mut k = K::new(BURN, 8, 1_000_000_000);
    k.register(XCVR);
    k.peer(2, [2; 32], 1_000_000_000, 8);
    let u = k.user;
    let it = k.send(u, 1_000_000, 2, [5; 32], false).unwrap();
    k.publish(NTT, it, true).unwrap();
    expect(k.outbox(&it).released == 1, "marked by the first transceiver");
    k.publish(XCVR, it, true).unwrap();
    expect(k.outbox(&it).released == 3, "marked by both transceivers");
''')

s('standalone-chain-low-byte','C05',[(TW+'receive_message.rs','constraint = vaa.message().ntt_manager_payload.payload.to_chain == config.chain_id @ NTTError::InvalidChainId,','constraint = vaa.message().ntt_manager_payload.payload.to_chain.id.to_be_bytes()[1] == config.chain_id.id.to_be_bytes()[1] @ NTTError::InvalidChainId,')],
 'a genuine message of the peer addressed to a chain whose id agrees with this one in its low byte only, delivered through the standalone transceiver',
 'the standalone transceiver accepts and stores a transfer addressed to another chain',
r'''
    let mut k = K::new(LOCK, 8, 1_000_000_000);
    k.register(XCVR);
    k.peer(2, [2; 32], 1_000_000_000, 8);
    k.xpeer(XCVR, 2, [4; 32]);
    let u = k.user;
    let mut m = k.msg(5_000, 8, u);
    expect(k.receive(XCVR, 2, [4; 32], [2; 32], &m).is_ok(), "a message to this chain is accepted");
    m.id = [77; 32];
    m.to_chain = 256 + k.chain;
    expect(k.receive(XCVR, 2, [4; 32], [2; 32], &m).is_err(), "a message to another chain is refused");
''')

s('later-votes-any-manager','C06',[(RD,'constraint = peer.address == ValidatedTransceiverMessage','constraint = inbox_item.init || peer.address == ValidatedTransceiverMessage')],
 'a first vote for a genuine message, and then a second transceiver attesting to the same manager message from a foreign source manager',
 'the vote of a message that does not come from the registered manager peer counts towards the threshold',
r'''
    let mut k = K::new(LOCK, 8, 1_000_000_000);
    k.register(XCVR);
    k.threshold(2);
    k.peer(2, [2; 32], 1_000_000_000, 8);
    k.xpeer(NTT, 2, [3; 32]);
    k.xpeer(XCVR, 2, [4; 32]);
    let u = k.user;
    let m = k.msg(5_000, 8, u);
    k.receive(NTT, 2, [3; 32], [2; 32], &m).unwrap();
    k.receive(XCVR, 2, [4; 32], [66; 32], &m).unwrap();
    let ib = k.redeem(NTT, 2, &m).unwrap();
    expect(k.redeem(XCVR, 2, &m).is_err(), "a vote from another source manager is refused");
    expect(matches!(Inbox::parse(k.svm.data(&ib)).unwrap().status, Status::NotApproved), "still unapproved");
''')

s('take-back-keeps-nominee','C18',[(AD,'''pub fn claim_ownership(ctx: Context<ClaimOwnership>) -> Result<()> {
    ctx.accounts.config.pending_owner = None;
    ctx.accounts.config.owner = ctx.accounts.new_owner.key();''','''pub fn claim_ownership(ctx: Context<ClaimOwnership>) -> Result<()> {
    let config = &mut ctx.accounts.config;
    if config.pending_owner == Some(ctx.accounts.new_owner.key()) {
        config.pending_owner = None;
        config.owner = ctx.accounts.new_owner.key();
    }''')],
 'the owner nominates an account, takes the nomination back, nominates somebody else, and the first nominee is not the one nominated; in between the record still names the old nominee',
 'after the owner cancelled a handover the old nomination stays recorded',
r'''
    let mut k = K::new(LOCK, 8, 1_000_000_000);
    let (o, u) = (k.owner, k.user);
    k.ok(transfer_own(o, u, false));
    k.ok(claim(o));
    expect(k.config().owner == o, "the owner kept the manager");
    expect(k.config().pending.is_none(), "no handover is under way any more");
''')

s('untrim-saturates','C20',[(TA,'''            amount
                .checked_mul(scaling_factor)
                .ok_or(ScalingError::OverflowScaledAmount)''','''            if scaling_factor > amount {
                return scaling_factor
                    .checked_mul(amount)
                    .ok_or(ScalingError::OverflowScaledAmount);
            }
            Ok(amount.saturating_mul(scaling_factor))''')],
 'an amount close to the top of the 64-bit range that does not fit at the local decimals',
 'an amount that does not fit is turned into u64::MAX instead of being reported as an overflow',
r'''
    use ntt_messages::trimmed_amount::TrimmedAmount;
    expect(TrimmedAmount { amount: 123, decimals: 6 }.untrim(9).ok() == Some(123_000), "a small amount is scaled");
    expect(TrimmedAmount { amount: 1, decimals: 0 }.untrim(19).ok() == Some(10_000_000_000_000_000_000), "one token");
    expect(TrimmedAmount { amount: 2, decimals: 0 }.untrim(19).is_ok() == false, "two tokens do not fit");
    expect(TrimmedAmount { amount: u64::MAX / 10, decimals: 6 }.untrim(8).is_err(), "an amount that does not fit is refused");
''')

s('gas-cost-16-bits','C28',[(Q+'processor/request_relay.rs','accs.registered_ntt.gas_cost as u64,','u64::from(accs.registered_ntt.gas_cost & 0xffff),')],
 'a deployment registered with a gas cost of more than 65535',
 'the relay fee is computed from the low 16 bits of the gas cost, so the payer pays less than quoted',
r'''
    let mut k = K::new(LOCK, 8, 1_000_000_000);
    k.peer(2, [2; 32], 1_000_000_000, 8);
    let (o, u, p) = (k.owner, k.user, k.payer);
    let fr = k.funded();
    k.ok(q_init(o, fr));
    k.ok(q_chain_ix(o, 2));
    k.ok(q_ntt_ix(o, NTT, 0, 250_000));
    k.ok(q_sol(o, 100_000_000));
    k.ok(q_prices(o, 2, 3_000_000_000, 20_000_000_000));
    k.ok(q_params(o, 2, 1_000_000_000, 50_000));
    let it = k.send(u, 1_000_000, 2, [5; 32], false).unwrap();
    k.publish(NTT, it, true).unwrap();
    let b = k.svm.lamports(&p);
    k.ok(q_req(p, 2, NTT, it, 0, u64::MAX / 4));
    // 250000 gas at 20 gwei = 0.005 native, at 3000 usd = 15 usd, and 0.05 usd base; at 100 usd per sol = 0.1505 sol
    expect(b - k.svm.lamports(&p) == 150_500_000, "the payer pays exactly the quoted fee");
''')

s('gov-any-other-action','C30',[(G,'if action != GovernanceAction::SolanaCall {','if matches!(action, GovernanceAction::EvmCall) {')],
 'a guardian-signed packet of the same module for Solana whose action is neither the Solana nor the EVM call',
 'governance executes packets with an action it does not implement',
r'''
    use wormhole_io::Readable;
    use anchor_lang::AnchorDeserialize;
    let mut p = vec![0u8; 8];
    p.extend_from_slice(b"GeneralPurposeGovernance");
    p.push(2);
    p.extend_from_slice(&1u16.to_be_bytes());
    p.extend_from_slice(wormhole_governance::ID.as_ref());
    p.extend_from_slice(&[9; 32]);
    p.extend_from_slice(&[0, 0, 0, 1, 42]);
    let de = |b: &[u8]| wormhole_governance::instructions::GovernanceMessage::deserialize(&mut &b[..]);
    expect(de(&p).is_ok(), "a Solana call is understood");
    p[32] = 1;
    expect(de(&p).is_err(), "an EVM call is refused");
    p[32] = 0;
    expect(de(&p).is_err(), "an unset action is refused");
    let _ = <u16 as Readable>::SIZE;
''')

s('transceiver-payload-255','C19',[(N+'transceiver.rs','let mut transceiver_payload = vec![0; transceiver_payload_len as usize];','let mut transceiver_payload = vec![0; usize::from(transceiver_payload_len.to_be_bytes()[1])];')],
 'a transceiver message whose transceiver-specific payload is longer than 255 bytes',
 'decoding drops the tail of the payload: decode(encode(m)) differs from m',
r'''
    use ntt_messages::{transceivers::wormhole::WormholeTransceiver, transceiver::TransceiverMessage, ntt::{NativeTokenTransfer, EmptyPayload}, ntt_manager::NttManagerMessage, trimmed_amount::TrimmedAmount, chain_id::ChainId};
    use wormhole_io::{Readable, Writeable};
    for n in [0usize, 1, 200, 255, 256, 300, 1000] {
        let m: TransceiverMessage<WormholeTransceiver, NativeTokenTransfer<EmptyPayload>> = TransceiverMessage::new(
            [1; 32],
            [2; 32],
            NttManagerMessage { id: [3; 32], sender: [4; 32], payload: NativeTokenTransfer { amount: TrimmedAmount { amount: 5, decimals: 6 }, source_token: [7; 32], to_chain: ChainId { id: 8 }, to: [9; 32], additional_payload: EmptyPayload {} } },
            (0..n).map(|i| i as u8).collect(),
        );
        let mut b = vec![];
        m.write(&mut b).unwrap();
        let mut r = b.as_slice();
        let back = TransceiverMessage::<WormholeTransceiver, NativeTokenTransfer<EmptyPayload>>::read(&mut r);
        expect(back.ok().as_ref() == Some(&m) && r.is_empty(), &format!("a payload of {n} bytes survives"));
    }
''')

s('lut-record-sticks','C27',[(M+'instructions/luts.rs','''    ctx.accounts.lut.set_inner(LUT {
        bump: ctx.bumps.lut,
        address: lut_address,
    });''','''    if ctx.accounts.lut.bump == 0 {
        ctx.accounts.lut.set_inner(LUT {
            bump: ctx.bumps.lut,
            address: lut_address,
        });
    }''')],
 'the lookup table created a second time at a later slot',
 'the record keeps pointing at the first table',
r'''
    let mut k = K::new(LOCK, 8, 1_000_000_000);
    let (p, c) = (k.payer, k.config());
    for round in 0..3 {
        k.svm.advance(50);
        let slot = k.svm.clock.slot - 1;
        k.ok(init_lut(p, slot, &c));
        let d = k.svm.data(&lut().0).to_vec();
        expect(d[9..41] == lut_table(slot).to_bytes(), &format!("the record points at table {round}"));
    }
''')

s('burn-any-limiter','C32',[(TR,'''pub struct TransferBurn<'info> {''','''pub struct TransferBurn<'info> {'''),(TR,'''        seeds = [InboxRateLimit::SEED_PREFIX, args.recipient_chain.id.to_be_bytes().as_ref()],
        bump = inbox_rate_limit.bump,
    )]
    // NOTE: it would be nice to put these into `common`, but that way we don't''','''    )]
    // NOTE: it would be nice to put these into `common`, but that way we don't''')],
 'a burning transfer to one chain that names the inbound limiter of another chain',
 'traffic to one chain restores the inbound capacity of another',
r'''
    let mut k = K::new(BURN, 8, 1_000_000_000);
    k.peer(2, [2; 32], 1_000_000, 8);
    k.peer(3, [3; 32], 1_000_000, 8);
    let u = k.user;
    let from = k.ata(u);
    let a = TArgs { amount: 5_000, chain: 2, to: [5; 32], queue: false };
    k.approve(from, u, a.clone());
    let (c, _) = k.transfer_call(from, u, a.clone());
    expect(k.go(c).is_ok(), "a transfer with its own limiter");
    k.approve(from, u, a.clone());
    let (c, _) = k.transfer_call(from, u, a);
    let c = c.with("inbox_rate_limit", inbox_rl(3).0);
    expect(k.go(c).is_err(), "a transfer with another chain's limiter is refused");
''')

s('queued-gives-back','C11',[(TR,'''            if !should_queue {
                return Err(NTTError::TransferExceedsRateLimit.into());
            }
''','''            if should_queue {
                let now = crate::clock::current_timestamp();
                inbox_rate_limit.rate_limit.refill(now, amount);
            } else {
                return Err(NTTError::TransferExceedsRateLimit.into());
            }
''')],
 'an outbound transfer that is queued because it exceeds the capacity, while the inbound capacity of that chain is partly used',
 'a queued transfer, which consumed no outbound capacity, gives back inbound capacity',
r'''
    let mut k = K::new(LOCK, 8, 1_000);
    k.peer(2, [2; 32], 1_000_000, 8);
    k.xpeer(NTT, 2, [3; 32]);
    let u = k.user;
    k.send(u, 900, 2, [5; 32], false).unwrap();
    k.send(u, 600_000, 2, [5; 32], true).unwrap();
    let m = k.msg(500_000, 8, u);
    k.receive(NTT, 2, [3; 32], [2; 32], &m).unwrap();
    k.redeem(NTT, 2, &m).unwrap();
    expect(k.in_capacity(2) == 500_000, "inbound capacity used");
    k.send(u, 200_000, 2, [5; 32], true).unwrap();
    expect(k.in_capacity(2) == 500_000, "a queued transfer gives nothing back");
''')

s('standalone-early-errors','C12',[(TW+'release_outbound.rs','''        if args.revert_on_delay {
            return Err(NTTError::CantReleaseYet.into());
        } else {
            return Ok(());
        }''','''        require!(args.revert_on_delay, NTTError::MessageAlreadySent);
        return Err(NTTError::CantReleaseYet.into());''')],
 'a queued transfer that is not due, published through the standalone transceiver by a caller who did not ask to revert',
 'the early attempt fails although it should succeed without any effect',
r'''
    let mut k = K::new(LOCK, 8, 1_000);
    k.register(XCVR);
    k.peer(2, [2; 32], 1_000_000, 8);
    let u = k.user;
    let it = k.send(u, 600_000, 2, [5; 32], true).unwrap();
    expect(k.publish(XCVR, it, true).is_err(), "too early, reverting");
    expect(matches!(k.publish(XCVR, it, false), Ok(None)), "too early, not reverting: no effect");
    k.svm.advance(DAY);
    expect(matches!(k.publish(XCVR, it, false), Ok(Some(_))), "published when due");
''')

s('receive-while-paused','C16',[(W+'receive_message.rs',"pub config: NotPausedConfig<'info>,","pub config: Account<'info, Config>,")],
 'a message delivered to the built-in transceiver while the manager is paused',
 'message reception goes on while the manager is paused',
r'''
    let mut k = K::new(LOCK, 8, 1_000_000_000);
    k.peer(2, [2; 32], 1_000_000_000, 8);
    k.xpeer(NTT, 2, [3; 32]);
    let (o, u) = (k.owner, k.user);
    let m = k.msg(5_000, 8, u);
    k.ok(pause(o, true));
    expect(k.receive(NTT, 2, [3; 32], [2; 32], &m).is_err(), "nothing is received while paused");
    k.ok(pause(o, false));
    expect(k.receive(NTT, 2, [3; 32], [2; 32], &m).is_ok(), "received after unpausing");
''')

s('frozen-anyone-initialises','C22',[(IN,'#[account(address = program_data.upgrade_authority_address.unwrap_or_default())]\n','#[account(constraint = program_data.upgrade_authority_address.map_or(true, |a| a == deployer.key()))]\n')],
 'a program made immutable (no upgrade authority) before it was initialised',
 'anybody can initialise the deployment and become its owner',
r'''
    let mut k = K::bare(LOCK, 8);
    k.svm.deploy(NTT, None);
    let (p, u, mint, tp) = (k.payer, k.user, k.mint, k.tp);
    expect(k.go(initialize(p, u, mint, tp, 1, 1000, LOCK)).is_err(), "a stranger cannot initialise a frozen program");
    let o = k.owner;
    k.svm.deploy(NTT, Some(o));
    expect(k.go(initialize(p, u, mint, tp, 1, 1000, LOCK)).is_err(), "a stranger cannot initialise");
    expect(k.go(initialize(p, o, mint, tp, 1, 1000, LOCK)).is_ok(), "the upgrade authority can");
''')

s('proceeds-to-caller','C29',[(Q+'processor/close_relay.rs','#[account(mut, address = instance.fee_recipient @ NttQuoterError::InvalidFeeRecipient)]','#[account(mut, constraint = *fee_recipient.key == instance.fee_recipient || instance.is_authorized(fee_recipient.key) @ NttQuoterError::InvalidFeeRecipient)]')],
 'the assistant closing a relay request and naming itself as the recipient',
 'proceeds of relay requests go to an account other than the configured fee recipient',
r'''
    let mut k = K::new(LOCK, 8, 1_000_000_000);
    k.peer(2, [2; 32], 1_000_000_000, 8);
    let (o, u, p) = (k.owner, k.user, k.payer);
    let (fr, asst) = (k.funded(), k.funded());
    k.ok(q_init(o, fr));
    k.ok(q_assist(o, asst));
    k.ok(q_chain_ix(asst, 2));
    k.ok(q_ntt_ix(asst, NTT, 0, 250_000));
    k.ok(q_sol(asst, 100_000_000));
    k.ok(q_prices(asst, 2, 3_000_000_000, 20_000_000_000));
    k.ok(q_params(asst, 2, 1_000_000_000, 50_000));
    let it = k.send(u, 1_000_000, 2, [5; 32], false).unwrap();
    k.publish(NTT, it, true).unwrap();
    k.ok(q_req(p, 2, NTT, it, 0, u64::MAX / 4));
    expect(k.go(q_close(asst, asst, it)).is_err(), "the assistant cannot redirect the proceeds");
    expect(k.go(q_close(asst, fr, it)).is_ok(), "the fee recipient gets them");
''')

s('gov-255-accounts','C31',[(G,'        for _ in 0..accounts_len {','        for _ in 0..accounts_len.to_be_bytes()[1] {')],
 'a governance packet listing more than 255 accounts',
 'the packet decodes to an instruction with other accounts and data than encoded',
r'''
    use anchor_lang::{AnchorDeserialize, AnchorSerialize};
    use wormhole_governance::instructions::{Acc, GovernanceMessage};
    for n in [0usize, 1, 17, 255, 256, 300] {
        let m = GovernanceMessage {
            governance_program_id: wormhole_governance::ID,
            program_id: Pubkey::new_from_array([9; 32]),
            accounts: (0..n).map(|i| Acc { pubkey: Pubkey::new_from_array([(i % 251) as u8; 32]), is_signer: i % 2 == 0, is_writable: i % 3 == 0 }).collect(),
            data: vec![1, 2, 3],
        };
        let mut b = vec![];
        m.serialize(&mut b).unwrap();
        let back = GovernanceMessage::deserialize(&mut b.as_slice());
        expect(back.ok() == Some(m), &format!("a packet with {n} accounts survives"));
    }
''')

s('shared-vote-slot','C07',[(RD,'accs.inbox_item.votes.set(accs.transceiver.id, true)?;','accs\n        .inbox_item\n        .votes\n        .set(accs.transceiver.id % 64, true)?;')],
 'at least 65 registered transceivers, with a low and a high numbered one voting for the same transfer',
 'transceivers whose ids differ by 64 share one vote, so their two votes count once',
r'''
    let mut k = K::new(LOCK, 8, 1_000_000_000);
    k.peer(2, [2; 32], 1_000_000_000, 8);
    let u = k.user;
    let mut xs = vec![NTT];
    for _ in 1..70u8 {
        let x = k.key();
        k.svm.deploy(x, None);
        k.register(x);
        xs.push(x);
    }
    k.threshold(2);
    for (a, b) in [(3usize, 4usize), (5, 30), (5, 66), (69, 5)] {
        let m = k.msg(5, 8, u);
        let mut ib = None;
        for x in [xs[a], xs[b]] {
            let v = Vtm { from_chain: 2, src_mgr: [2; 32], rcpt_mgr: NTT.to_bytes(), msg: m.clone() };
            k.svm.set(xmsg(&x, 2, &m.id), acct(rent_for(Vtm::LEN), v.bytes(), x));
            ib = k.redeem(x, 2, &m).ok();
        }
        let ok = ib.map(|ib| matches!(Inbox::parse(k.svm.data(&ib)).unwrap().status, Status::After(_))) == Some(true);
        expect(ok, &format!("two votes, of transceivers {a} and {b}, approve"));
    }
''')

s('release-to-any-account','C03',[(RI,'        associated_token::authority = inbox_item.recipient_address,\n        associated_token::mint = mint,\n        associated_token::token_program = token_program,','        token::authority = inbox_item.recipient_address,\n        token::mint = mint,\n        token::token_program = token_program,')],
 "an approved transfer released to another token account of the recipient",
 "the payout goes to an account other than the recipient's associated token account",
r'''
    let mut k = K::new(LOCK, 8, 1_000_000_000);
    k.peer(2, [2; 32], 1_000_000_000, 8);
    k.xpeer(NTT, 2, [3; 32]);
    let u = k.user;
    k.send(u, 1_000_000, 2, [5; 32], false).unwrap();
    let m = k.msg(5_000, 8, u);
    k.receive(NTT, 2, [3; 32], [2; 32], &m).unwrap();
    let ib = k.redeem(NTT, 2, &m).unwrap();
    let other = k.tok(u);
    expect(k.release(ib, other, true).is_err(), "not to another account of the recipient");
    let ua = k.ata(u);
    expect(k.release(ib, ua, true).is_ok(), "to the associated account");
''')

s('nominee-sets-limits','C17',[(AD,'''    #[account(
        constraint = config.owner == owner.key()
    )]
    pub config: Account<'info, Config>,

    pub owner: Signer<'info>,

    #[account(
        mut,''','''    #[account(
        constraint = config.owner == owner.key() || config.pending_owner == Some(owner.key())
    )]
    pub config: Account<'info, Config>,

    pub owner: Signer<'info>,

    #[account(
        mut,''')],
 'a two-step ownership transfer under way, and the nominee setting an inbound limit before claiming',
 'somebody who is not the owner changes the limits',
r'''
    let mut k = K::new(LOCK, 8, 1_000_000_000);
    k.peer(2, [2; 32], 1_000_000_000, 8);
    let (o, u) = (k.owner, k.user);
    k.ok(set_in(o, 500, 2));
    expect(k.go(set_in(u, 600, 2)).is_err(), "a stranger cannot set a limit");
    k.ok(transfer_own(o, u, false));
    expect(k.go(set_in(u, 600, 2)).is_err(), "a nominee cannot set a limit");
    k.ok(claim(u));
    expect(k.go(set_in(u, 600, 2)).is_ok(), "the new owner can");
''')

s('votes-forgotten','C23',[(RD,'''    accs.inbox_item.votes.set(accs.transceiver.id, true)?;''','''    accs.inbox_item.votes = Bitmap::new();
    accs.inbox_item.votes.set(accs.transceiver.id, true)?;'''),(RD,'    // idempotent\n','    // record the vote\n')],
 'a threshold of at least two and votes arriving one after the other',
 'earlier votes are forgotten when a later one arrives, so a threshold above one is never reached',
r'''
    let mut k = K::new(LOCK, 8, 1_000_000_000);
    k.register(XCVR);
    k.threshold(2);
    k.peer(2, [2; 32], 1_000_000_000, 8);
    k.xpeer(NTT, 2, [3; 32]);
    k.xpeer(XCVR, 2, [4; 32]);
    let u = k.user;
    let m = k.msg(5_000, 8, u);
    k.receive(NTT, 2, [3; 32], [2; 32], &m).unwrap();
    k.receive(XCVR, 2, [4; 32], [2; 32], &m).unwrap();
    let ib = k.redeem(NTT, 2, &m).unwrap();
    k.redeem(XCVR, 2, &m).unwrap();
    let i = Inbox::parse(k.svm.data(&ib)).unwrap();
    expect(i.votes == 3, "votes are only ever added");
    expect(matches!(i.status, Status::After(_)), "approved by both");
''')

s('limit-in-wire-units','C09',[(RD,'match accs.inbox_rate_limit.rate_limit.consume_or_delay(amount)','match accs\n        .inbox_rate_limit\n        .rate_limit\n        .consume_or_delay(message.payload.amount.amount())')],
 'a local token with more decimals than the message carries',
 'the inbound limit is charged in the decimals of the message instead of local units',
r'''
    let mut k = K::new(LOCK, 9, 1_000_000_000);
    k.peer(2, [2; 32], 1_000_000, 8);
    k.xpeer(NTT, 2, [3; 32]);
    let u = k.user;
    let m = k.msg(50_000, 8, u);
    k.receive(NTT, 2, [3; 32], [2; 32], &m).unwrap();
    k.redeem(NTT, 2, &m).unwrap();
    expect(k.in_capacity(2) == 500_000, "capacity reduced by exactly the local amount");
''')

s('least-message-fee','C33',[(M+'transceivers/wormhole/accounts.rs','            wormhole.bridge.fee(),\n        )?;','            wormhole.bridge.fee().max(100),\n        )?;')],
 'a Wormhole bridge whose message fee is above zero but below 100 lamports',
 'the payer is charged 100 lamports although the bridge asks for less',
r'''
    let mut k = K::new(LOCK, 8, 1_000_000);
    k.peer(2, [2; 32], 1_000_000, 8);
    let mut b = k.svm.get(&bridge());
    let mut d = b.data().to_vec();
    d[16..24].copy_from_slice(&7u64.to_le_bytes());
    b.set_data_from_slice(&d);
    k.svm.set(bridge(), b);
    let u = k.user;
    let item = k.send(u, 500, 2, [5; 32], false).unwrap();
    let before = k.svm.lamports(&fee_collector());
    k.publish(NTT, item, true).unwrap();
    expect(k.svm.lamports(&fee_collector()) == before + 7, "the bridge received exactly its fee");
''')

s('paid-for-twice-blocks','C34',[(TR,'    common.outbox_item.set_inner','    let item = common.outbox_item.to_account_info();\n    if item.lamports() != Rent::get()?.minimum_balance(item.data_len()) {\n        return Err(NTTError::BadAmountAfterTransfer.into());\n    }\n\n    common.outbox_item.set_inner')],
 'somebody sending SOL beyond the rent to the address of the outbox item before the transfer is executed',
 'anyone watching can make a properly approved transfer fail',
r'''
    let mut k = K::new(LOCK, 8, 1_000_000);
    k.peer(2, [2; 32], 1_000_000, 8);
    let u = k.user;
    let from = k.ata(u);
    let a = TArgs { amount: 500, chain: 2, to: [5; 32], queue: false };
    k.approve(from, u, a.clone());
    let (c, item) = k.transfer_call(from, u, a);
    k.svm.set(item, acct(50_000_000, vec![], SYSTEM));
    expect(k.go(c).is_ok(), "the transfer succeeds although its item's address holds SOL already");
''')

s('last-id-marks-again','C13',[(OB,'if self.released.get(transceiver_index)? {','if transceiver_index < 127 && self.released.get(transceiver_index)? {'),(M+'instructions/mark_outbox_item_as_released.rs','constraint = !outbox_item.released.get(transceiver.id)? @','constraint = transceiver.id == 127 || !outbox_item.released.get(transceiver.id)? @')],
 'the transceiver with the highest possible id (127) asking a second time for the same item',
 'that transceiver may publish the same transfer any number of times',
r'''
    let mut k = K::bare(LOCK, 8);
    let c = initialize(k.payer, k.owner, k.mint, k.tp, k.chain, 1_000_000, LOCK);
    k.ok(c);
    let mut cfg = k.config();
    cfg.next_id = 127;
    k.set_config(&cfg);
    let x = k.key();
    k.svm.deploy(x, None);
    k.register(x);
    k.peer(2, [2; 32], 1_000_000, 8);
    let u = k.user;
    let item = k.send(u, 500, 2, [5; 32], false).unwrap();
    expect(k.go(mark(x, item)).is_ok(), "published once");
    expect(k.go(mark(x, item)).is_err(), "not a second time");
''')

s('flag-free-for-evm','C15',[(TR,"&[u8::from(*should_queue)],","&[u8::from(*should_queue && recipient_address[..12] != [0; 12])],")],
 'a recipient address with twelve leading zero bytes (any EVM address), a transfer above the capacity, and an approval given without queueing',
 'an approval for an immediate transfer can be used by anyone to queue the transfer instead',
r'''
    let mut k = K::new(LOCK, 8, 1_000);
    k.peer(2, [2; 32], 1_000_000, 8);
    let u = k.user;
    let from = k.ata(u);
    let mut to = [0; 32];
    to[12..].copy_from_slice(&[6; 20]);
    let a = TArgs { amount: 500_000, chain: 2, to, queue: false };
    k.approve(from, u, a.clone());
    // whichever authority the program derives, the approval was for queue = false
    let mut b = a.clone();
    b.queue = true;
    let before = k.bal(&from);
    let (mut c, _) = k.transfer_call(from, u, b);
    c = c.with("session_authority", session(&u, &a.digest()));
    let _ = k.go(c);
    expect(k.bal(&from) == before, "nothing spent for arguments the owner did not approve");
''')

s('reused-id','C21',[(AD,'let id = ctx.accounts.config.next_transceiver_id;\n    ctx.accounts.config.next_transceiver_id += 1;','let next = ctx.accounts.config.next_transceiver_id;\n    let mut id = next;\n    for i in 0..next {\n        if !ctx.accounts.config.enabled_transceivers.get(i)? {\n            id = i;\n            break;\n        }\n    }\n    if id == next {\n        ctx.accounts.config.next_transceiver_id += 1;\n    }')],
 'a registration made while an earlier registered transceiver is disabled',
 'two transceivers share an id, so votes and publications of one count for the other',
r'''
    let mut k = K::new(LOCK, 8, 1_000);
    k.register(XCVR);
    let mut cfg = k.config();
    cfg.enabled &= !1;
    k.set_config(&cfg);
    let x = k.key();
    k.svm.deploy(x, None);
    k.register(x);
    match parse(&k.svm.get(&registered(&x).0)) {
        St::Reg { id, .. } => expect(id == 2, "the third transceiver has id 2"),
        _ => expect(false, "registered"),
    }
''')

s('one-more-than-fits','C08',[(TR,'match common.outbox_rate_limit.rate_limit.consume_or_delay(amount) {','let charged = if should_queue {\n        amount\n    } else {\n        amount.saturating_sub(1)\n    };\n    let release_timestamp = match common\n        .outbox_rate_limit\n        .rate_limit\n        .consume_or_delay(charged)\n    {'),(TR,'    let release_timestamp = let charged','    let charged')],
 'a transfer that does not ask for queueing (with queueing everything is exact)',
 'such a transfer is charged one unit too little, and one that exceeds the capacity by one unit is let through',
r'''
    let mut k = K::new(LOCK, 8, 1_000);
    k.peer(2, [2; 32], 1_000_000, 8);
    let u = k.user;
    expect(k.send(u, 1_001, 2, [5; 32], false).is_err(), "one more than the capacity is refused");
    k.send(u, 400, 2, [5; 32], false).unwrap();
    expect(k.out_capacity() == 600, "charged in full");
''')

s('empty-transfer-no-id','C14',[(W+'release_outbound.rs','id: accs.outbox_item.key().to_bytes(),','id: if accs.outbox_item.amount.amount() == 0 {\n                    [0; 32]\n                } else {\n                    accs.outbox_item.key().to_bytes()\n                },')],
 'a transfer of nothing but dust (trimmed to zero), published by the built-in transceiver',
 'all such messages carry the same id, so only one of them can ever be received',
r'''
    let mut k = K::new(LOCK, 9, 1_000);
    k.peer(2, [2; 32], 1_000_000, 8);
    let u = k.user;
    let item = k.send(u, 5, 2, [5; 32], false).unwrap();
    let p = k.publish(NTT, item, true).unwrap().unwrap();
    let (id, _) = (item.to_bytes(), 0);
    expect(p.payload.windows(32).any(|w| w == id), "the message carries the item's id");
''')

s('decimals-capped','C26',[(TW+'broadcast_id.rs','token_decimals: accs.mint.decimals,','token_decimals: accs.mint.decimals.min(18),')],
 'a token with more than 18 decimals, broadcast by the standalone transceiver',
 'the broadcast states 18 decimals instead of the real number',
r'''
    let mut k = K::new(LOCK, 24, 1_000);
    k.register(XCVR);
    let m = k.key();
    let c = bc_id(XCVR, k.payer, k.mint, m);
    k.ok(c);
    let p = Posted::parse(k.svm.data(&m)).unwrap();
    expect(*p.payload.last().unwrap() == 24, "the true decimals are broadcast");
''')

DEMO='''#!/bin/bash
# Demonstration: builds the program below against /repo in a scratch directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$d"' EXIT
cp -r "$here/demo/." "$d/" || exit 2
. /opt/vp/env.sh >/dev/null 2>&1
export CARGO_TARGET_DIR="$d/target" CARGO_INCREMENTAL=0 CARGO_NET_OFFLINE=true
cd "$d" || exit 2
cargo build --offline -q >"$d/log" 2>&1 || { tail -30 "$d/log"; exit 3; }
"$d/target/debug/demo"
'''
HEAD='''#![allow(dead_code, unused_imports, unused_variables, unused_mut)]
mod ix;
mod keys;
mod kit;
mod state;
mod svm;
use kit::*;

fn main() {'''
here=os.path.dirname(os.path.abspath(__file__))
def make(id, repo):
    prop,edits,needs,breaks,body=seeds[id]
    for f,o,n in edits:
        p=f'{repo}/solana/{f}';t=open(p).read()
        assert t.count(o)>=1,(id,f,o[:80])
        open(p,'w').write(t.replace(o,n,1))
    subprocess.run(['bash','-c',f'. /opt/vp/env.sh >/dev/null 2>&1; cd {repo}/solana && rustfmt --edition 2021 --config-path . $(git diff --name-only --relative) 2>/dev/null'])
    diff=subprocess.run(['git','-C',repo,'diff'],capture_output=True,text=True).stdout
    subprocess.run(['git','-C',repo,'checkout','-q','--','.'],check=True)
    d=ROOT+f'/seeded/{id}';shutil.rmtree(d,ignore_errors=True);os.makedirs(d)
    open(d+'/patch.diff','w').write(diff)
    shutil.copytree(here+'/demokit',d+'/demo',ignore=shutil.ignore_patterns('target'))
    open(d+'/demo/src/main.rs','w').write(HEAD+body.rstrip()+'\n}\n')
    open(d+'/demo.sh','w').write(DEMO);os.chmod(d+'/demo.sh',0o755)
    json.dump({'property':prop,'needs':needs,'what_it_breaks':breaks},open(d+'/meta.json','w'),indent=1)
if __name__=='__main__':
    ids=sys.argv[1].split(',') if len(sys.argv)>1 else list(seeds)
    r=tempfile.mkdtemp(prefix='seedrepo.',dir='/tmp')
    subprocess.run(['git','clone','-q','/repo',r],check=True)
    for i in ids: make(i,r)
    shutil.rmtree(r)
