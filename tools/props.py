#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script only so that the JSON stays well-formed)."""
import json, pathlib
P = []
ALL = ["src/elo.rs","src/fifa.rs","src/glicko.rs","src/glicko2.rs","src/glicko_boost.rs","src/sticko.rs","src/dwz.rs","src/ingo.rs","src/uscf.rs","src/egf.rs","src/weng_lin.rs","src/trueskill/mod.rs"]
TS = ["src/trueskill/mod.rs","src/trueskill/schedule.rs","src/trueskill/factor_graph.rs","src/trueskill/gaussian.rs","src/trueskill/math.rs","src/trueskill/erf.rs"]
def p(id, title, statement, over, text, why, files, mech, observe=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech],
                  "observe_at": observe or ["return values of the public functions"], "hook_needed": None}})

p("C01","Expected scores are probabilities",
  "In every rating system the expected score of each side lies in [0, 1], the expected scores of all sides of one match (two players, two teams, or any number of teams) add up to 1, and equally rated sides with no advantage get equal shares (1/2 each, 1/n for n identical teams). A list of opponents yields one value in [0, 1] per opponent, in order. (Each single-game expectation is for non-empty teams and ratings within the system's scale.)",
  ["inputs","configurations"],"all ratings, uncertainties, advantages/handicaps, team sizes and configurations of all 12 systems",
  "The tests evaluate a dozen fixed pairs per system; range, sum and symmetry have to hold for every pair, including far-apart ratings, extreme uncertainties and asymmetric teams.",
  ALL,[("expected_score / expected_score_two_teams / expected_score_multi_team / expected_score_rating_period","every system module")])
p("C02","Expected score is monotone in strength",
  "Raising one side's strength (a higher rating; a lower number in Ingo) while everything else stays the same never lowers that side's expected score and never raises the other side's; in the middle range, where neither score is close to 0 or 1, it strictly raises it. In the systems with an uncertainty (Glicko family, Weng-Lin, TrueSkill), more uncertainty never moves the expectation away from 1/2, as long as no colour advantage is configured. (TrueSkill: to the 1e-7 accuracy of its error-function approximation.)",
  ["inputs","configurations"],"all pairs of inputs differing in one rating (or one uncertainty), for 1v1, two-team and multi-team expectations",
  "Monotonicity relates pairs of inputs; the tests look at isolated points.",
  ALL,[("expected_score*","every system module")])
p("C03","Swapping the two sides swaps the results",
  "Rating a match with the two sides exchanged and the outcome inverted gives exactly the same two new ratings, exchanged (with colour advantages and handicaps negated accordingly); the same holds for expected scores, for two-team matches and for TrueSkill match quality. No system favours whoever is passed first.",
  ["inputs","configurations"],"all pairs of ratings/teams, outcomes and configurations (Elo, FIFA incl. shootouts, Glicko, Glicko-2, Glicko-Boost, Sticko, DWZ, Ingo, USCF, EGF, Weng-Lin, TrueSkill)",
  "A relation between two calls for every input; the tests never run the swapped call except for a few defaults.",
  ALL,[("1v1 and two-team entry points","every system module")])
p("C04","A better result never means a worse rating",
  "With everything else equal, turning a loss into a draw or a draw into a win (or a worse placement into a better one in Weng-Lin multi-team games) never leaves the player with a lower rating, in single games and for any game of a rating period. Winning a single game never lowers and losing never raises the rating (not claimed for Ingo and provisional USCF players, whose rating follows performance, nor for Sticko with lambda or beta configured, nor for FIFA shootouts, and not for EGF losses, which the anti-deflation bonus can outweigh), and in a multi-team game a team that alone is first never loses and a team that alone is last never gains. (Glicko-Boost's comparison is claimed while no boost applies, i.e. k = 0; in Weng-Lin and TrueSkill periods for the last game.)",
  ["inputs","configurations"],"all ratings, outcomes, period lists and positions of the upgraded game",
  "Order between outcomes must hold for every input; tests compare with fixed numbers.",
  ALL,[("rating updates","every system module")])
p("C05","Rating points are conserved where the system is zero-sum",
  "Elo and FIFA (without knockout protection and without a penalty shootout) matches leave the sum of both ratings unchanged, and so do Ingo matches between players of the same age class; a decided FIFA shootout adds exactly a quarter of the importance and an undecided one nothing. In Weng-Lin (1v1, two-team and multi-team) and TrueSkill (1v1 and two-team) the rating gain of the one side equals the loss of the other when each change is divided by that player's variance (plus dynamics variance in TrueSkill, averaged per player in a team).",
  ["inputs","configurations","histories"],"all pairs, teams, outcomes, configurations and whole league histories",
  "Conservation must hold on every input and accumulates over histories; tests check single rounded results.",
  ["src/elo.rs","src/fifa.rs","src/ingo.rs","src/weng_lin.rs","src/trueskill/mod.rs"],[("update terms K(s-e) with e1+e2=1","elo.rs, fifa.rs"),("omega / v terms","weng_lin.rs, trueskill/mod.rs")])
p("C06","Uncertainty behaves: positive, bounded, shrinking with play, growing in pauses",
  "After any game the deviation or uncertainty is positive and finite and never larger than the pre-game value after the system's own inflation (c in Glicko and Sticko, volatility in Glicko-2, the alpha term and boost in Glicko-Boost, dynamics factor in TrueSkill, nothing in Weng-Lin), and more games in one Glicko period never leave more uncertainty than fewer. Decay keeps rating (and volatility) unchanged, grows the deviation by the documented amount and caps it at 350; an empty rating period in the Glicko family is exactly one decay. Confidence intervals are rating plus/minus 1.96 deviations.",
  ["inputs","configurations","histories"],"all ratings, deviations, volatilities, configurations, period lists and repeated decay sequences",
  "Bounds and growth must hold for every input and along sequences of decays; tests decay one or two fixed players.",
  ["src/glicko.rs","src/glicko2.rs","src/glicko_boost.rs","src/sticko.rs","src/weng_lin.rs","src/trueskill/mod.rs"],[("decay_deviation, new_deviation, confidence_interval","Glicko family"),("new_uncertainty*","weng_lin.rs, trueskill/math.rs")])
p("C07","Rating periods agree with single games",
  "A rating period with one game gives player one exactly what the head-to-head function gives, with the same colour, handicap, match type and configuration. In Elo, FIFA, Weng-Lin and TrueSkill a period is the games applied one after the other, so splitting a period anywhere and carrying the rating over changes nothing. The expected scores of a rating period are the head-to-head expected scores against each opponent.",
  ["inputs","configurations","histories"],"all players, opponents, period lengths (0 to many thousands), split points, per-game settings",
  "Equality of two code paths for every input and every split; the tests use three-game lists.",
  ALL,[("*_rating_period vs. 1v1 function","every system module")])
p("C08","The order of games in a rating period does not matter",
  "In the systems that rate a period as simultaneous games (DWZ, Ingo, USCF, EGF, Glicko, Glicko-2, Glicko-Boost, Sticko, and the first DWZ) permuting the result list changes nothing, and opponents who appear several times count once per game.",
  ["inputs","configurations"],"all result lists and all permutations of them, with repeated opponents, mixed colours and handicaps",
  "Quantifies over all permutations of all lists.",
  ["src/dwz.rs","src/ingo.rs","src/uscf.rs","src/egf.rs","src/glicko.rs","src/glicko2.rs","src/glicko_boost.rs","src/sticko.rs"],[("*_rating_period sums","eight modules")])
p("C09","Multi-team results follow the teams, not their position",
  "Multi-team rating returns one result per team and player in input order; reordering the teams (or the players inside a team) reorders the results and changes nothing else (in TrueSkill: when all placements differ). Only the order of the placements matters, so ranks 1,2,3 and 5,70,900 give the same result. Expected scores and match quality are equally independent of the order of teams and players.",
  ["inputs","configurations"],"all team counts, team sizes, tie patterns, rank values (incl. 0 and very large) and permutations",
  "All permutations and rank labelings of all team lists; tests use 3-4 sorted teams.",
  ["src/weng_lin.rs","src/trueskill/mod.rs","src/trueskill/schedule.rs"],[("pairwise loop","weng_lin.rs weng_lin_multi_team"),("sort by rank and restoring the order","trueskill/mod.rs trueskill_multi_team")])
p("C10","1v1, two-team and multi-team functions agree",
  "A match given to several functions of the same system gets the same ratings and expected scores: Weng-Lin teams of one behave as 1v1 and a two-team game as a multi-team game with two teams; TrueSkill teams of one behave as 1v1, and, without dynamics factor, the two-team and multi-team functions agree to numerical accuracy. A match in which a team is empty or that has fewer than two teams leaves all ratings unchanged.",
  ["inputs","configurations"],"all ratings, team sizes, outcomes and configurations",
  "Equality between separately implemented code paths for every input.",
  ["src/weng_lin.rs"]+TS,[("weng_lin / weng_lin_two_teams / weng_lin_multi_team","weng_lin.rs"),("trueskill / trueskill_two_teams / trueskill_multi_team","trueskill/mod.rs")])
p("C11","The trait interface equals the module functions",
  "Using a system through the RatingSystem, RatingPeriodSystem, TeamRatingSystem and MultiTeamRatingSystem traits gives bit for bit the result of the module function with the configuration the system was created with (each game of a period with that configuration; white in every game where colours exist; no weights). Rating::rating and Rating::uncertainty report the stored values.",
  ["inputs","configurations"],"all systems, non-default configurations, ratings, teams and lists, several system instances alive at once",
  "Tests only use default configurations on one or two inputs per trait.",
  ALL+["src/lib.rs"],[("impl RatingSystem / RatingPeriodSystem / TeamRatingSystem / MultiTeamRatingSystem","every system module")])
p("C12","Conversions between rating types keep their documented meaning",
  "Conversions between systems follow the documented formulas (Elo = 2840 - 8 Ingo; USCF = 180 + 0.94 Elo above 2000 and 20 + 1.02 Elo up to 2000, with the matching inverse at 2060; DWZ, FIFA, Glicko-family, TrueSkill and Weng-Lin keep the numbers), fill missing fields with the documented defaults, and converting there and back returns the starting value. Conversions from tuples, numbers and ranks keep every field in its place.",
  ["inputs"],"all rating values of all convertible pairs, both sides of each breakpoint",
  "Round trips must hold on the whole scale, including near the breakpoints; tests convert a handful of values.",
  ALL+["src/lib.rs"],[("impl From<..>","every system module")])
p("C13","Rating floors, caps and protections hold",
  "USCF ratings never fall below 100 and EGF ratings never below -900, in single games and in periods, and a result that stays above the floor is not altered by it. A FIFA knockout match never lowers any team's rating, and the protection alters no result that gains points. Glicko, Glicko-Boost and Sticko never return a deviation above 350, and decay in Glicko-2 never does.",
  ["inputs","configurations","histories"],"all ratings near the floors and caps, outcomes, lists and configurations",
  "The bound must hold for every input; tests touch it once or not at all.",
  ["src/uscf.rs","src/egf.rs","src/fifa.rs","src/glicko.rs","src/glicko2.rs","src/glicko_boost.rs","src/sticko.rs"],[(".max(100.0) / .max(-900.0) / knockout branch / .min(350.0)","respective modules")])
p("C14","Every call returns, with finite numbers",
  "For ratings on the system's scale, positive uncertainties and valid configurations, every public function returns without panicking, overflowing, or looping forever and yields only finite numbers of the right shape: with empty lists and teams, one team, equal ranks, huge ranks, very many games, very many teams or players, and far-apart ratings.",
  ["inputs","configurations"],"all inputs on the customary scale of each system and all sizes",
  "Absence of panics, NaN and hangs has to hold for every input; tests visit small benign ones.",
  ALL+TS[1:]+["src/trueskill/matrix.rs"],[("guards for empty input, root finding in Glicko-2, factor graph schedule, matrix code","whole crate")])
p("C15","Results depend only on the arguments, in any thread",
  "Every function is pure: repeating a call gives bit-identical results regardless of what was called before, from how many threads, and in which order; arguments are never modified, and no call leaks memory. Running all of it concurrently shows no data race, undefined behaviour or memory error.",
  ["inputs","schedules","histories"],"all interleavings of calls from several threads and all call histories",
  "Tests call each function once from one thread.",
  ALL+TS[1:],[("no global state; Rc/RefCell graph local to one call","trueskill/factor_graph.rs, schedule.rs")])
p("C16","Counters and ages are kept correctly",
  "A DWZ result adds one to the event index per head-to-head game and per rating period (also an empty one) and keeps the age; a USCF result adds the number of games played (1, or the length of the period) to the game counter, and an empty period changes nothing; Ingo keeps the age. Glicko-2 decay keeps the volatility.",
  ["inputs","histories"],"all counters (0, thresholds, very large), list lengths and histories",
  "Bookkeeping must be exact after any sequence of events.",
  ["src/dwz.rs","src/uscf.rs","src/ingo.rs","src/glicko2.rs"],[("index + 1, games + n, age: player.age","respective modules")])
p("C17","Partial-play weights mean what they say",
  "In TrueSkill multi-team rating and match quality, bad weights are rejected with the error that names the first problem (the number of teams; else, team by team, a team whose number of weights differs or a player with a negative weight), right-shaped ones are accepted, and no weights equals all weights 1. A player with weight 0 keeps the rating and gains only the dynamics uncertainty, and does not influence anyone else; among the players of a team the rating change is proportional to weight times variance. The other players' results move towards not having played as a weight goes to 0.",
  ["inputs","configurations"],"all team shapes, weight matrices (well- and ill-shaped), weights in [0, 1] and beyond",
  "All shapes and weight values; tests use one or two weight sets.",
  TS+["src/trueskill/weights.rs","src/trueskill/matrix.rs"],[("get_weights, flattened_weights","trueskill/weights.rs, mod.rs")])
p("C18","Match quality is a consistent draw likelihood",
  "TrueSkill match quality lies in [0, 1], is symmetric in the sides, agrees between the 1v1, two-team, multi-team and list forms and with the published determinant formula, and does not depend on the order of teams. It is highest for equal team ratings and falls as the gap widens.",
  ["inputs","configurations"],"all ratings, uncertainties, configurations, team counts and sizes, weights",
  "A closed formula over arbitrary team shapes; tests compare a few rounded values.",
  ["src/trueskill/mod.rs","src/trueskill/matrix.rs"],[("match_quality*","trueskill/mod.rs"),("determinant/inverse","trueskill/matrix.rs")])
p("C19","A first DWZ is granted exactly when the rules allow it",
  "A first DWZ needs at least five games (else NotEnoughGames) and a score that is neither 0% nor 100% (else InvalidWinRate); otherwise it is the average opponent rating plus the table value for the rounded percentage, with results of 800 or below pulled up to 700 + x/8, index 1 and the given age. It depends on nothing but the games and the age.",
  ["inputs"],"all result lists and ages",
  "All score percentages and list lengths; tests sample four of them.",
  ["src/dwz.rs"],[("get_first_dwz and its probability table","dwz.rs")])
p("C20","Stored ratings come back unchanged",
  "With the serde feature every rating, configuration and outcome type survives serialization and deserialization unchanged, with the documented public field names, so that rating loaded players continues exactly as if they had never been stored; missing or mistyped fields are rejected.",
  ["inputs","histories"],"all values of all serializable types; histories interrupted by a store/load at any point",
  "The test suite does not round-trip any value.",
  ALL+["src/lib.rs"],[("derive(Serialize, Deserialize)","all public types")])
p("C21","Elo and FIFA ratings follow their formulas",
  "Elo: new rating = rating + K (score - 1/(1 + 10^((opponent - rating)/400))). FIFA: the same with importance instead of K and base 600, a shootout worth 0.75 for the winner and 0.5 for the loser (0.5 each if undecided), and no loss of points in a knockout match. Periods apply the games in the given order, each with its own match settings.",
  ["inputs","configurations","histories"],"all ratings, K/importance values, flags, outcomes and lists",
  "The formula has to be right everywhere; tests check rounded values at few points.",
  ["src/elo.rs","src/fifa.rs"],[("elo*, fifa*, expected_score*","elo.rs, fifa.rs")])
p("C22","Glicko ratings follow Glickman's formulas",
  "New ratings, deviations, decays and expected scores equal Glickman's published Glicko formulas (with the deviation first inflated by c and capped at 350), for single games and for rating periods of any length.",
  ["inputs","configurations","histories"],"all ratings, deviations, c values and lists","Formula conformance on the whole input space.",
  ["src/glicko.rs"],[("glicko, glicko_rating_period, decay_deviation, expected_score","glicko.rs")])
p("C23","Glicko-2 ratings follow Glickman's formulas",
  "New ratings, deviations and volatilities equal Glickman's published Glicko-2 procedure on the 173.7178 scale, the new volatility being the root of the published equation to within the configured convergence tolerance; single games, periods of any length, decay and expected scores alike.",
  ["inputs","configurations","histories"],"all ratings, deviations, volatilities, tau and tolerance values and lists","The root finding takes different paths on different inputs; tests follow three of them.",
  ["src/glicko2.rs"],[("new_volatility iteration and update","glicko2.rs")])
p("C24","Glicko-Boost ratings follow the published formulas",
  "New ratings and deviations equal the Glicko-Boost formulas: colour advantage eta for white and minus eta for black, boosted deviation exactly when the performance exceeds k, alpha-dependent growth between periods, cap 350; single games, periods of any length, decay and expected scores alike.",
  ["inputs","configurations","histories"],"all ratings, deviations, colours, configurations and lists","Formula conformance on both sides of the boost threshold, for any list.",
  ["src/glicko_boost.rs"],[("new_deviation, boost_rd, e_value","glicko_boost.rs")])
p("C25","Sticko ratings follow the published formulas",
  "New ratings and deviations equal the Stephenson formulas: h added to the variance per game, beta bonus per game, lambda pull towards the average opponent, gamma advantage by colour, c growth, cap 350; single games, periods of any length, decay and expected scores alike. With h, beta, lambda and gamma 0 Sticko is Glicko.",
  ["inputs","configurations","histories"],"all ratings, deviations, colours, configurations and lists","Formula conformance for arbitrary configurations; tests use the default one.",
  ["src/sticko.rs"],[("sticko, sticko_rating_period","sticko.rs")])
p("C26","DWZ ratings follow the published formulas",
  "New DWZ equals the DWZ rules: development coefficient from rating and age class (up to 20, up to 25, older), acceleration for players under 20 who meet or beat their expectation, braking below 1300 for those who score at most their expectation, coefficient limits 5, min(30, 5 x index) or 150, then 800/(E + games) times the surplus score; for single games and for periods of any length.",
  ["inputs","histories"],"all ratings, ages, indices, outcomes and lists","Many branch combinations; tests visit a few.",
  ["src/dwz.rs"],[("e_value, new_rating","dwz.rs")])
p("C27","Ingo ratings follow the published formulas",
  "New Ingo rating is the games-weighted mean of performance (average opponent minus (percentage score - 50)) and old rating with weight 10, 15 or 20 by age class (up to 20, up to 25, older); expectations are 1/2 + difference/100 limited to [0, 1]; an empty period changes nothing.",
  ["inputs","histories"],"all ratings, ages, outcomes and lists","Formula conformance on all inputs.",
  ["src/ingo.rs"],[("ingo, ingo_rating_period","ingo.rs")])
p("C28","USCF ratings follow the published formulas",
  "Players with at most 8 games get the provisional formula, all others the standard one with effective game number, K = 800/(N'+m) and a bonus beyond t x sqrt(max(m,4)) for three or more games; new players start at 50 x age within [100, 1300]; floor 100; single games and periods of any length.",
  ["inputs","configurations","histories"],"all ratings, game counts, ages, t values, outcomes and lists","Several regimes and thresholds; tests visit a few points.",
  ["src/uscf.rs"],[("new_rating_provisional, new_rating, effective_game_number, get_boost_value","uscf.rs")])
p("C29","EGF ratings follow the published formulas",
  "New EGF rating is rating + con (score - expected) + bonus with the published con, bonus and beta functions and the handicap credited to the right player (100 x (stones - 0.5)); single games and periods of any length with a handicap per game; floor -900.",
  ["inputs","configurations","histories"],"all ratings, handicaps (both signs, fractions), outcomes and lists","Formula conformance on all inputs.",
  ["src/egf.rs"],[("con, bonus, beta, new_rating","egf.rs")])
p("C30","Weng-Lin ratings follow the Bradley-Terry full-pair formulas",
  "New ratings and uncertainties of 1v1, two-team, multi-team and period games and all expected scores equal the Bradley-Terry full-pair formulas of Weng and Lin, with variances floored by the configured tolerance.",
  ["inputs","configurations","histories"],"all ratings, uncertainties, teams, tie patterns and configurations","Formula conformance on all team shapes.",
  ["src/weng_lin.rs"],[("weng_lin*","weng_lin.rs")])
p("C31","TrueSkill 1v1 and two-team ratings follow the closed-form update",
  "New ratings and uncertainties of TrueSkill 1v1, two-team and period games, expected scores of players and teams, and the conservative rank equal the published closed forms (truncated-Gaussian corrections, draw margin from the draw probability, dynamics factor) to the accuracy of the error-function approximation.",
  ["inputs","configurations","histories"],"all ratings, uncertainties, teams, outcomes and configurations","Formula conformance on all inputs, incl. upsets and tiny draw margins.",
  ["src/trueskill/mod.rs","src/trueskill/math.rs","src/trueskill/erf.rs"],[("v/w functions, new_rating, new_uncertainty, cdf/erfc","trueskill/math.rs, gaussian.rs, erf.rs")])
p("C32","TrueSkill multi-team ratings are the factor-graph posterior",
  "Multi-team TrueSkill returns the approximate posterior of the TrueSkill factor graph (priors widened by the dynamics factor, performance noise beta, weighted team sums, neighbouring teams by placement truncated with their draw margin), i.e. the message-passing result within its stopping accuracy, for any number of teams, sizes, ties and weights.",
  ["inputs","configurations"],"all team counts and sizes, tie patterns, weights and configurations","Iterative algorithm over arbitrary graphs; tests cover five of them.",
  TS,[("run_schedule and the factors","trueskill/schedule.rs, factor_graph.rs")])
p("C33","Whole seasons stay sane",
  "Over long histories of games, periods and decays among a population every step is the one the published formulas give and every invariant keeps holding after every event (finite values, floors, caps, counters, conservation of the total in Elo and FIFA), replaying the same history gives the same table, and players whose results follow their true strength end up ranked in that order.",
  ["histories","configurations"],"all seasons: seeds, population sizes, schedules, formats and outcome streams",
  "Errors that accumulate or need a particular history do not show in single calls.",
  ALL,[("all update functions in composition","whole crate")])
p("C34","Defaults and constructors are the documented ones",
  "new(), Default and Rating::new(None, None) of every rating give the documented starting values, Rating::new(Some(..), Some(..)) stores what it is given (and ignores an uncertainty the system does not have), configurations default to the documented constants, and outcomes are worth 1, 0.5 and 0 points.",
  ["inputs","configurations"],"all systems and all argument combinations of the constructors","Rating::new must keep any value in the right field; tests try one.",
  ALL+["src/lib.rs"],[("new, Default, Rating::new","every system module")])
p("C35","Only rating differences count, not where the scale starts",
  "Adding the same number to every rating involved leaves expected scores unchanged and just adds that number to the new ratings, everything else staying the same, in Elo, FIFA, Glicko, Glicko-2, Sticko, Ingo, Weng-Lin and TrueSkill (team games: every team total moved by the same amount); expected scores of Glicko-Boost, DWZ and USCF and the TrueSkill match quality are likewise unchanged. Weng-Lin and TrueSkill (1v1 and two teams) have no unit either: multiplying ratings, uncertainties and the configured scales by a factor multiplies the results by it.",
  ["inputs","configurations"],"all ratings, offsets, factors, outcomes, lists, teams and configurations",
  "A clamp, threshold or constant that depends on the absolute rating shows only at ratings no test uses.",
  ALL,[("all update and expectation functions","elo.rs, fifa.rs, glicko.rs, glicko2.rs, sticko.rs, ingo.rs, weng_lin.rs, trueskill/")])
p("C36","Simultaneous games and pairings add up",
  "The games of one period and the pairings of one team game are counted together, each once and with its full weight: information (1/deviation^2) and evidence of a Glicko period (and of Sticko with h and lambda 0) are the sums over its games taken alone; an EGF period away from the floor changes the rating by the sum of what its games alone would; a Weng-Lin multi-team game changes ratings and variances by the sum over its two-team pairings; opponents in team games count only through the total of their ratings and variances.",
  ["inputs","configurations","histories"],"all lists, team counts and sizes, tie patterns and configurations",
  "Must hold for every length and composition of the list; tests use lists of three or four.",
  ["src/glicko.rs","src/sticko.rs","src/egf.rs","src/weng_lin.rs","src/trueskill/mod.rs"],[("*_rating_period, weng_lin_multi_team, *_two_teams","glicko.rs, sticko.rs, egf.rs, weng_lin.rs, trueskill/mod.rs")])
p("C37","Ratings, settings and places are plain values",
  "Two ratings of any system compare equal exactly when every field is numerically equal (so a NaN field equals nothing, and the smallest difference in any one field counts); copies and clones of ratings and configurations carry every field bit for bit; the Rating trait reads back the rating and, where the system has one, the uncertainty. An outcome equals only itself, and MultiTeamOutcomes compare, sort and convert exactly as their ranks do, over the whole range of usize.",
  ["inputs"],"all field values including signed zeros, infinities and NaN, all ranks",
  "Equality and order must hold for every pair of values; tests compare a handful of equal copies.",
  ALL+["src/lib.rs"],[("derives of the rating and configuration types; Outcomes, MultiTeamOutcome, Rating","every system module, lib.rs")])
p("C38","The less is known about a player, the more a game moves them",
  "With everything else equal, a better known player is moved in the same direction and never further than a less known one: a smaller deviation or uncertainty in Glicko, Glicko-2 (unless the volatility explodes), Glicko-Boost, Sticko (lambda 0), Weng-Lin and TrueSkill (one on one and as a member of one of two teams), a higher index (and from 20 years on a higher age) in DWZ, a higher age in Ingo, more games in USCF beyond the provisional eight; in games and, outside Weng-Lin and TrueSkill, in rating periods. The members of a team share a change in proportion to their variances (TrueSkill: variance plus dynamics squared, times the weight), and the relative losses of variance likewise. In Elo the change is proportional to K, in FIFA to the importance of the match.",
  ["inputs","configurations"],"all ratings, outcomes, lists, teams, weights and configurations",
  "A relation between calls that differ in one argument; tests check single results.",
  ALL,[("all update functions","every system module")])
pathlib.Path(__file__).parent.parent.joinpath("properties.jsonl").write_text("".join(json.dumps(x)+"\n" for x in P))
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
