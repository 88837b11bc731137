# Regenerates known_findings.json by hand after triage; no check runs this.
import sys,json
sys.path.insert(0,__import__('os').path.dirname(__import__('os').path.dirname(__import__('os').path.abspath(__file__))))
from mc import common,hands,configs
tot,bads,n=common.run_shards(hands.jobs('C18','quick'))
F=dict(tot.findings)
print(len(F), {k.split(' cards')[0][:14] for k in F}, {k.split('cards=')[1][:1] for k in F})
assert all('suits=3 ' in k for k in F)
fixed="""C02 de06516 odd chips of a split pot could go to nobody's or the wrong seat depending on the button position
C01 7c0f105 blinds and antes larger than a stack made the stack negative
C08 dc1fded blinds and antes were posted by busted seats or the wrong seats
C01 1fb4e95 the hand got stuck (chips left in the pot) if all players were all-in before everybody had acted
C07 1fb4e95 a street did not end although nobody in the hand had chips left
C03 239ab9c payouts of a hand won by a fold were reported as lost after the pot was paid out
C11 239ab9c stepping a hand won by folds reported other payouts than the final action
C14 d30bf6c the previous action in the render state never told that the player folded
C15 d30bf6c the action line of the ascii table never reported a fold correctly
C02 7b96d7c chips a folded player committed beyond everybody else could be paid to players not in the hand
C05 b00c64b full raises were not all counted towards the maximum number of raises
C04 e9afdc1 bets were rounded away from the closest valid bet if the minimum raise is not larger than the call
C04 4eb0bd9 bets half way between two valid sizes were rounded up
C22 7a64a07 the documented float('inf') raise size was rejected
C05 6947628 a minimum raise above the maximum (pot limit) raise was offered
C20 a723eef tricking the whole deck lost the order
C16 174eeee same suit high cards got no strength in decks with hands too small for flushes
C18 174eeee same suit high cards were not counted with hands too small for flushes
C16 194870a decks with at most as many ranks as cards in a hand had wrong tables
C18 194870a decks with at most as many ranks as cards in a hand had wrong tables
C16 c945b42 custom orders ranking impossible hands above possible ones gave wrong strengths
C18 c945b42 custom orders ranking impossible hands above possible ones gave wrong categories
C22 e81bfaa orders which are no permutation of the categories were accepted
C10 a94d4da observations handed out changed when the hand continued
C10 abcf8c2 lists of the configuration were shared with the dealer
C12 d0b32a5 a refused deal destroyed the table
C23 df51cef the graphic viewer ignored the requested host
C14 414b9d1 the hand was rendered as over (cards of all players shown) while everybody was all-in by forced bets
C15 414b9d1 the ascii table showed all cards and no pot while everybody was all-in by forced bets
C19 20c45fc the letter long s (U+017F) was accepted as the suit spades
C02 74a8cf7 tied players were paid from side pots they had not contributed to
C23 6a26354 every browser got the latest state again whenever another browser connected
C24 409ca5b street commitments of an earlier state stayed on the page when there was no state
C26 c1006f2 a web viewer whose state channel could not be reached left its server process running (and a program hung at its exit)
C04 eaff16c whole bets beyond 2^53 were rounded to another number of chips
C26 f18082b opening the web viewer failed with a raw protocol error if its page was cut off or answered by something else, and never ended if it was not answered""".split("\n")
tot2,bads2,n2=common.run_shards(configs.jobs('C25','quick'))
F2=dict(tot2.findings); assert len(F2)==2
data={"findings":[{"property":"C25","key":k,"text":t} for k,t in sorted(F2.items())]+[{"property":"C18","key":k,"text":t} for k,t in sorted(F.items())],
"fixed":["fixed: property=%s %s %s"%tuple(l.split(" ",2)) for l in fixed]}
json.dump(data,open('/verif/known_findings.json','w'),indent=1,ensure_ascii=False)
