//! Votes on polls, what they count and what they lock.
use crate::runtime::*;
use crate::world::*;
use pallet_communities::{Event as Ev, Vote};
use shim::frame_system::RawOrigin;

/// What a vote is about to lock: the native token or one of the assets.
#[derive(Copy, Clone, PartialEq)]
enum Token {
    Native,
    Asset(u8),
}
fn stake(v: &AVote) -> Option<(Token, Bal)> {
    match v {
        Vote::AssetBalance(_, id, n) => Some((Token::Asset(*id), *n)),
        Vote::NativeBalance(_, n) => Some((Token::Native, *n)),
        Vote::Standard(_) => None,
    }
}
fn says(v: &AVote) -> bool {
    match v {
        Vote::AssetBalance(s, ..) => *s,
        Vote::NativeBalance(s, _) => *s,
        Vote::Standard(s) => *s,
    }
}
/// Votes cast: one per member, or one per unit at stake as far as they can be counted.
fn weight(v: &AVote) -> u32 {
    match stake(v) {
        Some((_, n)) if n > u32::MAX as u64 => u32::MAX,
        Some((_, n)) => n as u32,
        None => 1,
    }
}
/// The vote is of the kind the decision method asks for.
fn fits(v: &AVote, m: &Method) -> bool {
    match (m, v) {
        (Method::Membership, Vote::Standard(_)) | (Method::Rank, Vote::Standard(_)) => true,
        (Method::NativeToken, Vote::NativeBalance(..)) => true,
        (Method::CommunityAsset(id, min), Vote::AssetBalance(_, a, n)) => id == a && n >= min,
        _ => false,
    }
}
fn counted(v: &AVote, m: &Method, rank: u8) -> u32 {
    match m {
        Method::Rank => rank as u32,
        _ => weight(v),
    }
}
fn plus(t: Count, v: &AVote, n: u32) -> Count {
    if says(v) {
        Count { ayes: t.ayes.saturating_add(n), bare: t.bare.saturating_add(weight(v)), nays: t.nays }
    } else {
        Count { nays: t.nays.saturating_add(n), ..t }
    }
}
/// The tally includes the vote.
fn includes(t: Count, v: &AVote, n: u32) -> bool {
    if says(v) {
        t.ayes >= n && t.bare >= weight(v)
    } else {
        t.nays >= n
    }
}
fn minus(t: Count, v: &AVote, n: u32) -> Count {
    if says(v) {
        Count { ayes: t.ayes - n, bare: t.bare - weight(v), nays: t.nays }
    } else {
        Count { nays: t.nays - n, ..t }
    }
}
fn coin(t: Token, a: Acc) -> &'static mut Coin {
    match t {
        Token::Native => unsafe { &mut NATIVE[a.0 as usize] },
        Token::Asset(id) => unsafe { &mut ASSET[id as usize][a.0 as usize] },
    }
}
const TOKENS: [Token; 3] = [Token::Native, Token::Asset(0), Token::Asset(1)];
fn any_count() -> Count {
    Count { ayes: vk::any_u32(), nays: vk::any_u32(), bare: vk::any_u32() }
}
fn any_stake() -> AVote {
    let v = any_vote();
    vk::assume(stake(&v).is_some());
    v
}
fn put_lock(who: Acc, poll: u32, v: &AVote) {
    CommunityVoteLocks::<Test>::insert(who, poll, v.clone());
    if let Some((t, n)) = stake(v) {
        let c = coin(t, who);
        if n > c.frozen {
            c.frozen = n;
        }
    }
}
/// What the recorded locks of the account on the two polls amount to.
fn locked(who: Acc, t: Token) -> Bal {
    let mut most = 0;
    let mut poll = 0;
    while poll < POLLS {
        if let Some(v) = CommunityVoteLocks::<Test>::get(who, poll as u32) {
            match stake(&v) {
                Some((x, n)) if x == t && n > most => most = n,
                _ => (),
            }
        }
        poll += 1;
    }
    most
}

struct Scene {
    a: Cid,
    b: Cid,
    method_a: Method,
    method_b: Method,
    /// class and tally of the poll, if it is ongoing
    poll: Option<(Cid, Count)>,
    /// the vote the membership has cast before, and who did so
    old: Option<(AVote, Acc)>,
    other: (AVote, Acc),
    who: Acc,
    m: Mid,
}
impl Scene {
    fn method(&self, c: Cid) -> &Method {
        if c == self.a {
            &self.method_a
        } else {
            &self.method_b
        }
    }
    fn neighbour(&self) -> Mid {
        (self.m + 1) % MEMBERS as u8
    }
    /// The membership if the caller has it.
    fn mine(&self) -> Option<Member> {
        member(self.m).filter(|x| x.owner == self.who)
    }
}
/// Any two communities, members, poll and tally; the membership may have voted already, under the
/// rank and decision method it has now.
fn scene(voted: bool) -> Scene {
    let (a, b) = (vk::any_u16(), vk::any_u16());
    vk::assume(a != b);
    let (method_a, method_b) = (any_method(), any_method());
    CommunityDecisionMethod::<Test>::insert(a, method_a.clone());
    CommunityDecisionMethod::<Test>::insert(b, method_b.clone());
    any_members(a, b);
    let mut i = 0;
    while i < PEOPLE {
        let mut t = 0;
        while t < TOKENS.len() {
            coin(TOKENS[t], Acc(i as u32)).balance = vk::any_u64();
            t += 1;
        }
        i += 1;
    }
    let class = if vk::any_bool() { a } else { b };
    let tally_now = any_count();
    let poll = match vk::any_below(4) {
        0 => Poll::None,
        1 => Poll::Completed(vk::any_bool()),
        _ => Poll::Ongoing(tally(tally_now), class),
    };
    let ongoing = matches!(poll, Poll::Ongoing(..));
    unsafe {
        POLL[0] = poll;
        POLL[1] = if vk::any_bool() { Poll::Ongoing(tally(Count { ayes: 1, nays: 2, bare: 3 }), class) } else { Poll::Completed(true) };
    }
    let mut s = Scene {
        a,
        b,
        method_a,
        method_b,
        poll: if ongoing { Some((class, tally_now)) } else { None },
        old: None,
        other: (any_vote(), any_person()),
        who: any_person(),
        m: vk::any_below(MEMBERS as u8),
    };
    CommunityVotes::<Test>::insert(0, s.neighbour(), s.other.clone());
    if voted {
        let (v, by) = (any_vote(), any_person());
        let x = unsafe { MEMBER[s.m as usize] };
        vk::assume(x.group == class && fits(&v, s.method(class)) && weight(&v) > 0);
        vk::assume(!ongoing || includes(tally_now, &v, counted(&v, s.method(class), x.rank)));
        CommunityVotes::<Test>::insert(0, s.m, (v.clone(), by));
        if stake(&v).is_some() {
            put_lock(by, 0, &v);
        }
        if by != s.who && vk::any_bool() {
            put_lock(by, 1, &any_stake());
        }
        s.old = Some((v, by));
    }
    if vk::any_bool() {
        put_lock(s.who, 1, &any_stake());
    }
    let mut i = 0;
    while i < PEOPLE {
        let mut t = 0;
        while t < TOKENS.len() {
            let c = coin(TOKENS[t], Acc(i as u32));
            vk::assume(c.frozen <= c.balance);
            t += 1;
        }
        i += 1;
    }
    s
}
/// The other vote, the other poll and all memberships are as they were.
fn calm(s: &Scene, before: &[Member; MEMBERS], other_poll: &Poll) -> bool {
    CommunityVotes::<Test>::get(0, s.neighbour()) == Some(s.other.clone())
        && unsafe { &POLL[1] == other_poll && MEMBER == *before }
        && CommunityDecisionMethod::<Test>::get(s.a) == s.method_a
        && CommunityDecisionMethod::<Test>::get(s.b) == s.method_b
}
fn tally_now() -> Option<Count> {
    match unsafe { &POLL[0] } {
        Poll::Ongoing(t, _) => Some(count(t)),
        _ => None,
    }
}
/// Every account has frozen exactly what its locks amount to.
fn balanced() -> bool {
    let mut ok = true;
    let mut i = 0;
    while i < PEOPLE {
        let mut t = 0;
        while t < TOKENS.len() {
            ok &= coin(TOKENS[t], Acc(i as u32)).frozen == locked(Acc(i as u32), TOKENS[t]);
            t += 1;
        }
        i += 1;
    }
    ok
}

/// A vote that was tried.
struct Cast {
    s: Scene,
    before: [Member; MEMBERS],
    other_poll: Poll,
    v: AVote,
    covered: bool,
    entitled: bool,
    ok: bool,
}
fn cast(voted: bool) -> Cast {
    let s = scene(voted);
    let (before, other_poll) = unsafe { (MEMBER, POLL[1].clone()) };
    let v = any_vote();
    let covered = match stake(&v) {
        Some((t, n)) => n <= coin(t, s.who).balance,
        None => true,
    };
    let entitled = match (s.mine(), &s.poll) {
        (Some(x), Some((class, _))) => x.group == *class && fits(&v, s.method(*class)),
        _ => false,
    };
    let ok = Communities::vote(signed(s.who), s.m, 0, v.clone()).is_ok();
    Cast { s, before, other_poll, v, covered, entitled, ok }
}
fn vote_who(voted: bool) {
    let c = cast(voted);
    vk::check!(
        c.ok == (c.entitled && c.covered && weight(&c.v) > 0),
        "a member votes on ongoing polls of the community, in its way, with covered votes"
    );
    vk::cover!(c.ok, "voted");
    vk::cover!(c.entitled && !c.covered, "not covered");
    vk::cover!(!c.entitled && weight(&c.v) > 0, "not entitled");
}
fn vote_tally(voted: bool) {
    let c = cast(voted);
    if c.ok {
        let (class, t) = c.s.poll.unwrap();
        let (method, rank) = (c.s.method(class), c.before[c.s.m as usize].rank);
        let t = match &c.s.old {
            Some((o, _)) => minus(t, o, counted(o, method, rank)),
            None => t,
        };
        vk::check!(
            tally_now() == Some(plus(t, &c.v, counted(&c.v, method, rank))),
            "the tally counts the latest vote of each membership"
        );
        vk::check!(CommunityVotes::<Test>::get(0, c.s.m) == Some((c.v.clone(), c.s.who)), "the vote is on record");
        vk::check!(calm(&c.s, &c.before, &c.other_poll), "nothing else changes");
        vk::check!(
            reported(Ev::VoteCasted { who: c.s.who, poll_index: 0, vote: c.v.clone() }),
            "one event tells about the vote"
        );
        vk::cover!(says(&c.v), "aye");
        vk::cover!(!says(&c.v), "nay");
        vk::cover!(*method == Method::Rank, "ranked");
    }
}
fn vote_locks(voted: bool) {
    let c = cast(voted);
    if c.ok {
        if let Some((t, n)) = stake(&c.v) {
            vk::check!(coin(t, c.s.who).frozen >= n, "what was voted with is frozen");
            vk::check!(CommunityVoteLocks::<Test>::get(c.s.who, 0) == Some(c.v.clone()), "the lock is on record");
        }
        if let Some((o, by)) = &c.s.old {
            vk::check!(
                *by == c.s.who || stake(o).is_none() || CommunityVoteLocks::<Test>::get(*by, 0).is_none(),
                "the former voter is not bound any more"
            );
        }
        vk::check!(balanced(), "exactly the largest lock of each token is frozen");
        vk::cover!(stake(&c.v).is_some(), "locked");
        vk::cover!(stake(&c.v).is_none(), "not locked");
    }
}
/// Any votes on record, one of them taken back perhaps.
fn withdraw() -> (Scene, [Member; MEMBERS], Poll, bool) {
    let s = scene(vk::any_bool());
    let (before, other_poll) = unsafe { (MEMBER, POLL[1].clone()) };
    let ok = Communities::remove_vote(signed(s.who), s.m, 0).is_ok();
    (s, before, other_poll, ok)
}
fn remove_who() {
    let (s, _, _, ok) = withdraw();
    let entitled = match (s.mine(), &s.poll) {
        (Some(x), Some((class, _))) => x.group == *class && s.old.is_some(),
        _ => false,
    };
    vk::check!(ok == entitled, "whoever has the membership takes back its vote while the poll is ongoing");
    vk::cover!(ok, "removed");
    vk::cover!(!ok && s.poll.is_some(), "no vote");
}
fn remove_tally() {
    let (s, before, other_poll, ok) = withdraw();
    if ok {
        let (class, t) = s.poll.unwrap();
        let (o, _) = s.old.clone().unwrap();
        let n = counted(&o, s.method(class), before[s.m as usize].rank);
        vk::check!(tally_now() == Some(minus(t, &o, n)), "exactly that vote is not counted any more");
        vk::check!(CommunityVotes::<Test>::get(0, s.m).is_none(), "the vote is not on record any more");
        vk::check!(calm(&s, &before, &other_poll), "nothing else changes");
        vk::check!(reported(Ev::VoteRemoved { who: s.who, poll_index: 0 }), "one event tells about it");
        vk::cover!(says(&o), "aye");
        vk::cover!(!says(&o), "nay");
    }
}
fn remove_locks() {
    let (s, _, _, ok) = withdraw();
    if ok {
        let (o, by) = s.old.clone().unwrap();
        vk::check!(CommunityVoteLocks::<Test>::get(by, 0).is_none(), "the lock is gone");
        vk::check!(balanced(), "exactly the largest lock of each token is frozen");
        vk::cover!(stake(&o).is_some() && by != s.who, "another voter");
        vk::cover!(stake(&o).is_some() && by == s.who, "own vote");
    }
}
/// One account voted on poll 0 with tokens, perhaps on poll 1 too.
fn locks() -> (Acc, Option<AVote>, Option<AVote>) {
    let who = any_person();
    let mut t = 0;
    while t < TOKENS.len() {
        coin(TOKENS[t], who).balance = vk::any_u64();
        t += 1;
    }
    let here = if vk::any_bool() { Some(any_stake()) } else { None };
    let there = if vk::any_bool() { Some(any_stake()) } else { None };
    if let Some(v) = &here {
        put_lock(who, 0, v);
    }
    if let Some(v) = &there {
        put_lock(who, 1, v);
    }
    let mut t = 0;
    while t < TOKENS.len() {
        let c = coin(TOKENS[t], who);
        vk::assume(c.frozen <= c.balance);
        t += 1;
    }
    unsafe {
        POLL[0] = match vk::any_below(3) {
            0 => Poll::None,
            1 => Poll::Completed(vk::any_bool()),
            _ => Poll::Ongoing(tally(any_count()), vk::any_u16()),
        };
        POLL[1] = Poll::Completed(true);
    }
    (who, here, there)
}

vk::harnesses! {
    #[kani::unwind(6)]
    fn first_who() { with_storage(|| vote_who(false)) }
    #[kani::unwind(6)]
    fn first_tally() { with_storage(|| vote_tally(false)) }
    #[kani::unwind(6)]
    fn first_locks() { with_storage(|| vote_locks(false)) }
    #[kani::unwind(6)]
    fn again_who() { with_storage(|| vote_who(true)) }
    #[kani::unwind(6)]
    fn again_tally() { with_storage(|| vote_tally(true)) }
    #[kani::unwind(6)]
    fn again_locks() { with_storage(|| vote_locks(true)) }
    #[kani::unwind(6)]
    fn taken_back() { with_storage(|| remove_who()) }
    #[kani::unwind(6)]
    fn taken_back_tally() { with_storage(|| remove_tally()) }
    #[kani::unwind(6)]
    fn taken_back_locks() { with_storage(|| remove_locks()) }
    /// Only accounts vote.
    #[kani::unwind(6)]
    fn others() { with_storage(|| {
        let s = scene(vk::any_bool());
        let o = any_caller();
        vk::assume(!matches!(o, Caller::System(RawOrigin::Signed(_))));
        match vk::any_below(3) {
            0 => vk::check!(Communities::vote(Origin(o), s.m, 0, any_vote()).is_err(), "only accounts vote"),
            1 => vk::check!(Communities::remove_vote(Origin(o), s.m, 0).is_err(), "only accounts take votes back"),
            _ => vk::check!(Communities::unlock(Origin(o), 0).is_err(), "only accounts unlock"),
        }
        vk::cover!(true, "reached");
    }) }
    #[kani::unwind(6)]
    fn freeze_refused() { with_storage(|| {
        let s = scene(false);
        unsafe { FREEZER_REFUSES = true };
        let v = any_vote();
        let needs = stake(&v).is_some();
        let before = tally_now();
        let r = Communities::vote(signed(s.who), s.m, 0, v);
        vk::check!(r.is_err() || !needs, "votes with tokens need the lock");
        vk::check!(r.is_ok() || tally_now() == before, "a failed vote is not counted");
        vk::cover!(needs && s.mine().is_some() && s.poll.is_some(), "refused");
        vk::cover!(r.is_ok(), "no tokens");
    }) }
    #[kani::unwind(6)]
    fn unlock() { with_storage(|| {
        let (who, here, there) = locks();
        let ongoing = matches!(unsafe { &POLL[0] }, Poll::Ongoing(..));
        let r = Communities::unlock(signed(who), 0);
        vk::check!(r.is_ok() == (here.is_some() && !ongoing), "locks end with their poll");
        if r.is_ok() {
            vk::check!(CommunityVoteLocks::<Test>::get(who, 0).is_none(), "the lock is gone");
            vk::check!(CommunityVoteLocks::<Test>::get(who, 1) == there, "the lock on the other poll stays");
            let mut t = 0;
            while t < TOKENS.len() {
                vk::check!(coin(TOKENS[t], who).frozen == locked(who, TOKENS[t]), "exactly the largest remaining lock is frozen");
                t += 1;
            }
            vk::cover!(there.is_some(), "other lock");
            vk::cover!(there.is_none(), "free");
        } else {
            vk::cover!(here.is_some(), "still ongoing");
        }
    }) }
    /// Unlocking is for one's own locks.
    #[kani::unwind(6)]
    fn unlock_own() { with_storage(|| {
        let (who, here, _) = locks();
        let other = any_person();
        vk::assume(other != who);
        vk::check!(Communities::unlock(signed(other), 0).is_err(), "nobody unlocks what they have not locked");
        vk::check!(CommunityVoteLocks::<Test>::get(who, 0) == here, "locks of others stay");
        vk::cover!(here.is_some(), "reached");
    }) }
    /// One account votes with two memberships, and takes one of the votes back.
    #[kani::unwind(6)]
    fn two_memberships() { with_storage(|| {
        let (x, y) = (vk::any_u32() as Bal, vk::any_u32() as Bal);
        vk::assume(x > 0 && y > 0);
        let who = pair(Method::NativeToken, x.max(y));
        let first = Communities::vote(signed(who), 0, 0, Vote::NativeBalance(true, x)).is_ok();
        let second = Communities::vote(signed(who), 1, 0, Vote::NativeBalance(true, y)).is_ok();
        let back = Communities::remove_vote(signed(who), 1, 0).is_ok();
        vk::cover!(first && second && back, "reached");
        if first && second && back {
            vk::check!(coin(Token::Native, who).frozen >= x, "tokens stay frozen while a vote with them counts");
        }
    }) }
    /// The rank changes between a vote and its removal.
    #[kani::unwind(6)]
    fn rank_changed() { with_storage(|| {
        let who = pair(Method::Rank, 0);
        unsafe { MEMBER[0].rank = vk::any_u8() };
        let before = tally_now();
        let cast = Communities::vote(signed(who), 0, 0, Vote::Standard(true)).is_ok();
        unsafe { MEMBER[0].rank = vk::any_u8() };
        let back = Communities::remove_vote(signed(who), 0, 0).is_ok();
        if cast && back {
            vk::check!(tally_now() == before, "a vote taken back leaves no trace in the tally");
        }
        vk::cover!(cast && back, "reached");
    }) }
    /// The decision method changes between a vote and its removal.
    #[kani::unwind(6)]
    fn method_changed() { with_storage(|| {
        let x = vk::any_u64();
        vk::assume(x > 0);
        let who = pair(Method::NativeToken, x);
        unsafe { MEMBER[0].rank = vk::any_u8() };
        let before = tally_now();
        let cast = Communities::vote(signed(who), 0, 0, Vote::NativeBalance(true, x)).is_ok();
        CommunityDecisionMethod::<Test>::insert(1, Method::Rank);
        let back = Communities::remove_vote(signed(who), 0, 0).is_ok();
        if cast && back {
            vk::check!(tally_now() == before, "a vote taken back leaves no trace in the tally");
        }
        vk::cover!(cast && back, "reached");
    }) }
    /// More votes than can be counted.
    #[kani::unwind(6)]
    fn too_many() { with_storage(|| {
        let x = vk::any_u64();
        vk::assume(x > 0);
        let who = pair(Method::NativeToken, x);
        let before = tally_now();
        let cast = Communities::vote(signed(who), 0, 0, Vote::NativeBalance(true, x)).is_ok();
        let back = Communities::remove_vote(signed(who), 0, 0).is_ok();
        if cast && back {
            vk::check!(tally_now() == before, "a vote taken back leaves no trace in the tally");
        }
        vk::cover!(cast && back, "reached");
    }) }
}
/// An account with two memberships of community 1, and an ongoing poll of it.
fn pair(method: Method, balance: Bal) -> Acc {
    CommunityDecisionMethod::<Test>::insert(1, method);
    unsafe {
        MEMBER[0] = Member { owner: Acc(0), group: 1, rank: 0 };
        MEMBER[1] = MEMBER[0];
        NATIVE[0].balance = balance;
        POLL[0] = Poll::Ongoing(tally(any_count()), 1);
    }
    Acc(0)
}
