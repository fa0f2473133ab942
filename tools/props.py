"""Source of properties.jsonl and MANIFEST.json: python3 tools/props.py regenerates both."""
import json,os,sys
HERE=os.path.dirname(os.path.abspath(__file__)); V=os.path.dirname(HERE)
L='programs/core/src/lib.rs'; C='programs/core/src/context.rs'; ST='programs/core/src/states/'; LB='programs/core/src/libraries/'; AC='programs/core/src/access_control.rs'
P=[]
TECH='abstract interpretation of compiler IR (MIR) to value-number terms; obligations decided by rewriting and gate splitting'
def prop(id,title,statement,over,text,why,files,mech,state=(),level_note='',technique=TECH):
    P.append(dict(id=id,title=title,statement=statement,over=over,text=text,why=why,files=files,mech=mech,state=state,note=level_note,technique=technique))
H=['inputs','histories']
WHY='The unit tests cover the math and state helpers with sampled arguments; no test runs an instruction with its accounts, so %s is never exercised.'

prop('C01','Protocol configuration changes only with the owner\'s signature',
 'After the first set-up, the protocol configuration (owner, protocol fee share), the enabled fee tiers and the accrued protocol fees of any pool change downwards or otherwise only in instructions signed by the account recorded as protocol owner in the genuine configuration account. The signer of the set-up becomes the first owner, and ownership moves exactly to the account named in the transfer instruction.',
 H,'every instruction, every set of accounts and signers passed to it',WHY%'who may call an administrative instruction',
 [L,C,ST+'factory.rs',ST+'fee.rs'],[('address constraint on the owner',C),('owner field of the factory',ST+'factory.rs')],
 level_note='Every write to configuration, fee-tier and (decreasing) protocol-fee state in the interpreted handlers is dominated by the owner equality and signature facts. Trusts Anchor\'s account deserialisation model.')
prop('C02','Withdrawals from a tokenized position need its token\'s holder or delegate',
 'Removing liquidity or collecting through a tokenized position succeeds only when the signer owns the token account holding exactly one token of that position\'s mint, or is its delegate with a non-zero allowance. The manager address is signed for only under that authority, and the identity of a position record (mint, pool, ticks) never changes after it is created.',
 H,'every caller, token account and position record',WHY%'the authority check on position tokens',
 [L,C,AC,ST+'tokenized_position.rs'],[('is_authorized_for_token',AC),('manager address signature set by the program itself',L)],
 level_note='All effects of the two withdrawal instructions carry the authority facts on every path.')
prop('C03','Pool positions are changed only by their owner',
 'Burning liquidity from a pool position, collecting its owed tokens, or crediting anything but an addition to it happens only with the signature of the account that the position\'s address is derived from. A position account used with a pool has the address derived from that pool, that owner and its two ticks.',
 H,'every caller and every position account',WHY%'ownership of pool positions',
 [L,C,ST+'position.rs'],[('position address seeds',C),('owner signer',C)],
 level_note='Address equality with the derived address and signer facts are obligations at each effect.')
prop('C04','A tokenized position is served only by its own pool and tick range',
 'Every instruction that adds to, removes from or collects a tokenized position works on the pool and the lower and upper ticks recorded when the position token was minted. The record\'s address is derived from the position token\'s mint, and the record keeps the pool and ticks it was minted with.',
 H,'every combination of pool, ticks and position record passed by a caller',WHY%'the link between a position record and the pool accounts passed with it',
 [L,C,ST+'tokenized_position.rs'],[('recorded pool and ticks',ST+'tokenized_position.rs'),('address constraints',C)],
 level_note='Equality of recorded and supplied pool/ticks is required on the success path of all handlers that use the record.')
prop('C05','Pool-owned accounts are tied to their pool by derived addresses',
 'Every tick, bitmap word, position and observation account that an instruction reads or writes for a pool has the address derived from that pool\'s two mints, its fee and the account\'s own key (tick, word, index, owner and range). The accounts of the ticks, bitmap words and current observation used are the ones the requested range and the pool\'s state call for.',
 H,'every account an attacker can substitute',WHY%'account substitution',
 [L,C,ST+'pool.rs',ST+'tick.rs',ST+'tick_bitmap.rs',ST+'oracle.rs',ST+'position.rs'],[('validate_tick_address and its siblings',ST+'pool.rs')],
 level_note='Per account and per instruction, the address equality is a discharged obligation, for loop-indexed accounts too.')
prop('C06','Tokens leave only the paying pool\'s own vaults, to the matching recipient',
 'Every payout is made from a vault that is the associated token account of the paying pool for one of its two mints, authorised by that pool\'s own address. When collecting, each token goes from its vault to the recipient given for that token; a swap pays from the vault of the output side to the caller\'s output account.',
 H,'every vault and recipient account passed by a caller',WHY%'which vault a payout leaves from',
 [L,C],[('vault address validation',L),('signed token transfer',L)],
 level_note='All signed token transfers of all instructions are covered, including those in multi-hop swaps.')
prop('C07','Liquidity is minted only against full payment into the vaults',
 'Whenever liquidity is added, exactly one payment is requested for the token amounts that follow from the current price and the range. The instruction succeeds only if, re-read after the payment, each vault\'s balance has grown by at least the amount due.',
 H,'every payer program, amount, price and range',WHY%'the payment check after the callback',
 [L],[('mint callback and balance check',L)],
 level_note='The post-payment balance fact is required on the success path with the reloaded snapshot, not the earlier one.')
prop('C08','A swap pays out only against full payment of the input',
 'Every successful swap requests payment for the computed input and output amounts and succeeds only if the input vault, re-read after the payment, has received at least the input amount. A single swap transfers exactly the computed output, once, and only when it is positive.',
 H,'every payer program, direction and amount',WHY%'the payment check after the swap callback',
 [L],[('swap callback and balance check',L)],
 level_note='Covers the direct swap, the single-hop router and every hop of the multi-hop router.')
prop('C09','Collecting pays the lesser of requested and owed and deducts exactly that',
 'Collecting from a position pays, for each token, the smaller of the amount asked for and the amount owed, moves nothing when that is zero, and lowers the owed amount by exactly what was paid; everything else about the position stays. Through a tokenized position the payment is further limited by what the pool-side position is owed, and both ledgers drop by the amounts taken. No other instruction lowers an owed amount.',
 H,'every requested amount, owed amount and accrual state',WHY%'the collect ledger',
 [L,ST+'position.rs',ST+'tokenized_position.rs'],[('collect',L),('collect_from_tokenized',L)],
 level_note='Final ledger values are compared as algebraic terms with the specified ones.')
prop('C10','Protocol fee withdrawals pay at most what accrued and deduct exactly that',
 'Withdrawing protocol fees pays, for each token, the smaller of the amount asked for and the amount accrued from the pool\'s vault, and lowers the accrued amount by exactly that. The withdrawal leaves price, liquidity, fee growth and oracle state as they were, and no other instruction lowers accrued protocol fees.',
 H,'every requested amount and accrual state',WHY%'the protocol fee ledger',
 [L,ST+'pool.rs'],[('collect_protocol',L)],level_note='Final values compared as terms.')
prop('C11','A pool is locked while control is outside and during every change',
 'Liquidity changes, collections, swaps, protocol fee withdrawals and oracle growth start only on an unlocked pool. The pool is locked whenever another program is called with its accounts or money, and is unlocked again when the instruction succeeds; a new pool starts unlocked.',
 ['histories','inputs'],'every re-entrant call sequence and every path through an instruction','The tests never call another program, so no re-entrant history occurs in them.',
 [L,ST+'pool.rs'],[('unlocked flag',ST+'pool.rs')],level_note='Typestate of the lock at every external call, change and success exit.')
prop('C12','Slippage minimums bound every router and manager operation',
 'Adding liquidity through the position manager succeeds only if each token amount deposited reaches the caller\'s minimum, and removing liquidity only if the token amounts released for the removed liquidity (fees excluded) reach the minimum. A routed swap, single or multi-hop, succeeds only if the amount paid out at the end reaches the caller\'s minimum.',
 H,'every price, amount, route length and fee state',WHY%'a slippage check',
 [L],[('PriceSlippageCheck / TooLittleReceived checks',L)],level_note='The comparison is proved on the success path against the actual vault difference or computed amount.')
prop('C13','Deadlines are enforced on every instruction that takes one',
 'Every position-manager and router instruction that carries a deadline succeeds only when the cluster clock has not passed it.',
 H,'every clock value and deadline',WHY%'a deadline',
 [L,AC],[('check_deadline',AC)],level_note='Applies to any present or future instruction with a deadline argument.')
prop('C14','Fee tiers, protocol fee and pool parameters are validated and then fixed',
 'A fee tier is enabled only with a fee below one million parts per million and a tick spacing between 1 and 16383; the protocol fee share is only ever set between 1/2 and 1/10. A pool is created only for two mints in ascending order, with the fee and spacing of a genuine enabled tier and an initial price in range whose tick it records, and its mints, fee and spacing never change afterwards.',
 H,'every parameter value and later history',WHY%'parameter validation',
 [L,C,ST+'pool.rs',ST+'fee.rs'],[('requirements in enable_fee_amount, set_fee_protocol, create_and_init_pool',L)],level_note='Who-may-write analysis over all instructions plus value obligations.')
prop('C15','Ticks, bitmap words and ranges stay within protocol bounds',
 'A tick account is created only for a tick within the protocol bounds that is a multiple of the pool\'s spacing, and a bitmap account only for a word within the range those ticks can reach; both keep their key forever. Every position and liquidity change has its lower tick strictly below its upper tick.',
 H,'every tick, word and range requested',WHY%'range validation at account creation',
 [L,C,ST+'tick.rs',ST+'tick_bitmap.rs'],[('check_tick / word bounds',L)],level_note='Bounds are proved on the success path; who-may-write analysis for the keys.')
prop('C17','One liquidity change moves position, ticks and active liquidity together',
 'Adding or removing liquidity changes, by the same amount and with overflow rejected: the position\'s liquidity, the gross liquidity of both ticks, the net liquidity of the lower tick (and by the opposite amount the upper tick), and the pool\'s active liquidity exactly when the current tick lies in the range. A tokenized position records the same change; price, fee growth and protocol fees stay, and no other instruction alters these liquidity figures (swaps only the active liquidity).',
 H,'every amount, range and tick state',WHY%'the joint update of position, ticks and pool',
 [L,ST+'tick.rs',ST+'position.rs',LB+'liquidity_math.rs'],[('_modify_position, _update_position',L),('TickState::update',ST+'tick.rs')],level_note='Final states of all accounts compared as terms on all liquidity entry points.')
prop('C18','Token amounts of a liquidity change follow price and range',
 'The amounts requested when liquidity is added and credited when it is removed are: only token 0 when the price is below the range, only token 1 when it is above, and both, split at the current price, when it is inside. Removing credits exactly these principal amounts besides accrued fees, to the position and to the tokenized record.',
 H,'every price, range and amount',WHY%'the amounts requested or credited by an instruction',
 [L],[('_modify_position',L)],level_note='Amount terms compared per price case; the per-amount arithmetic is compared with its definition in C31.')
prop('C19','Bitmap bits and tick records agree with tick usage',
 'A tick\'s bit in the bitmap flips exactly when the tick goes from unused to used or back, in the correct word, also when both ticks share a word. A tick\'s outside accumulators are set when it is first used at or below the current tick, cleared when its last liquidity is removed and kept otherwise; a tick account is closed only when it is clear.',
 H,'every history of liquidity changes',WHY%'the joint state of ticks and bitmap',
 [L,ST+'tick.rs',ST+'tick_bitmap.rs'],[('flip_tick',ST+'tick_bitmap.rs'),('TickState::update, clear, is_clear',ST+'tick.rs')],level_note='Final words and tick fields compared as terms, including the shared-word case.')
prop('C21','Fees are credited for the liquidity held, since the last snapshot',
 'On every change, a position is credited the growth of fees inside its range since its last snapshot times the liquidity held before the change, rounded down, and its snapshot moves to the current growth; a tokenized position likewise with its own liquidity and snapshot. Snapshots move only together with such credits, and a position without liquidity cannot be poked.',
 H,'every history of swaps and liquidity changes',WHY%'fee crediting',
 [L,ST+'position.rs',ST+'tick.rs',ST+'tokenized_position.rs'],[('PositionState::update',ST+'position.rs'),('get_fee_growth_inside',ST+'tick.rs')],level_note='Credited amounts and snapshots compared as terms.')
prop('C25','Oracle observations record the state before each change, once per slot',
 'A swap that moves the tick and an in-range liquidity change extend the oracle with the elapsed time weighted by the tick and active liquidity before the change, at most once per second; otherwise observations stay untouched. A new slot, opened when the partition of time advances, continues the accumulators of the latest observation, becomes the pool\'s current observation, and the populated length grows when the last populated slot is written.',
 H,'every history and clock','The oracle has no unit tests at all (stated in the README).',
 [L,ST+'oracle.rs',ST+'pool.rs'],[('ObservationState::update, observe_latest',ST+'oracle.rs')],level_note='Final observation and pool oracle fields compared as terms for each branch.')

exec(open(os.path.join(HERE,'props2.py')).read()) if os.path.exists(os.path.join(HERE,'props2.py')) else None

NA=[]
nap=os.path.join(HERE,'na.py')
if os.path.exists(nap): exec(open(nap).read())

def main():
    sys.path.insert(0,os.path.join(V,'sa'))
    import rules
    for m in('rules2','rules3','rules4','rules5','rules6'):
        if os.path.exists(os.path.join(V,'sa',m+'.py')): __import__(m)
    P.sort(key=lambda p:p['id'])
    out=[];checks=[]
    for p in P:
        assert len(p['title'])<=80,(p['id'],len(p['title']))
        out.append(dict(id=p['id'],title=p['title'],statement=p['statement'],quantifier=dict(over=p['over'],text=p['text']),why_tests_cant=p['why'],
            anchors=dict(files=p['files'],mechanism=[dict(name=a,where=b) for a,b in p['mech']])))
        if p['id'] in rules.RULES:
            checks.append(dict(property=p['id'],quick_cmd='python3 sa/run.py '+p['id'],thorough_cmd='python3 sa/thorough.py '+p['id'],technique=p['technique'],level='other',level_note=p['note']))
        else: assert any(n['property']==p['id'] for n in NA),p['id']+' neither claimed nor declined'
    for r in rules.RULES: assert any(p['id']==r for p in P),r+' has no property text'
    open(os.path.join(V,'properties.jsonl'),'w').write(''.join(json.dumps(x)+'\n' for x in out))
    m=dict(version=1,setup_cmd='bash tools/extract.sh',checks=checks,not_applicable=NA,
        notes='Static analysis only: a rustc driver dumps the MIR of /repo\'s crate on every run; sa/ interprets it abstractly. No hooks in /repo.')
    json.dump(m,open(os.path.join(V,'MANIFEST.json'),'w'),indent=1)
    print(len(out),'properties',len(checks),'checks',len(NA),'declined')
main()
