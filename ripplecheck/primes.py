"""Prime towers (p, q1, q2, r1, r2): q1 | p-1, q2 | p+1, r1 | q2-1, r2 | q2+1; all are 7 mod 8,
small integers are squares, and p-1 is coprime to 3*5*7*11*13."""
TOWERS = [
    (301856560852472138254109362040924870747208590793912150271981112762611211990640599, 7509235432814846279, 26335957334734074762294992644262982127478767336199, 3443774398621778399, 6526017771244290479),
    (182981035026162907577860983596147017135850097170947412876650536062789693337073199, 12650570874668588879, 9173229173849746978349523788717021491534806012719, 2885869841912450279, 4630817017712358359),
    (17553074392952468222687313719361767223711092891822566067642492683408260458423639, 12023068065826170239, 16909773261342985702257677894783633594632297287119, 2828898464353314239, 7474362072712597919),
    (80871726795401122728748013813882039622241745984281026097214147453568604841003639, 11494222196045927159, 6595772942842533674505713340764248337139131554679, 2589660600145839359, 5364749971671122639),
]
