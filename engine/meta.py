"""Texts of the properties: properties.jsonl and MANIFEST.json are generated from here and props.py (gen.py)."""
META = {}


def P(pid, title, statement, over, text, why, files, mech, obs=()):
    META[pid] = {'id': pid, 'title': title, 'statement': ' '.join(statement.split()), 'quantifier': {'over': over, 'text': ' '.join(text.split())},
                 'why_tests_cant': ' '.join(why.split()),
                 'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech], 'observe_at': list(obs)}}


P('C01', 'Elo follows its formula in single games and rating periods',
  '''An Elo update moves each player by K times (score minus expected score), the expected score being the base-10 logistic of the rating difference over 400,
  so that the two ratings always add up to what they were before. A rating period is the fold of the single-game update over its results in order, and the
  expected scores of a period are the single-game expected scores, one per opponent in order.''',
  ['inputs', 'configurations'], 'all pairs of ratings, all outcomes, all K, all rating periods (lists of opponents and outcomes)',
  'The tests check a handful of rating pairs against literals; the formula has to hold for every rating, K, outcome and list.',
  ['src/elo.rs'], [('elo', 'src/elo.rs fn elo'), ('elo_rating_period', 'src/elo.rs fn elo_rating_period'), ('expected_score', 'src/elo.rs fn expected_score, expected_score_rating_period')])
P('C02', 'FIFA rating follows its formula, with shoot-out and knockout rules',
  '''A FIFA update moves each team by the match importance times (result minus expected result), the expected result being the base-10 logistic of the rating
  difference over 600. A match decided on penalties counts 0.75 for the winner and 0.5 for the other team, and in a knockout match no team ever loses points;
  each team is judged by its own result. A rating period is the fold of the single-match update over its results in order, each with its own configuration.''',
  ['inputs', 'configurations'], 'all ratings, outcomes, importances, and all four knockout/penalties combinations, in single matches and rating periods',
  'The tests reach a few flag combinations with fixed ratings; the flags interact with the sign of the change, which depends on the ratings.',
  ['src/fifa.rs'], [('fifa', 'src/fifa.rs fn fifa'), ('fifa_rating_period', 'src/fifa.rs fn fifa_rating_period'), ('expected_score', 'src/fifa.rs fn expected_score, expected_score_rating_period')])
P('C03', 'Ingo follows its formula for all ages, games and periods',
  '''An Ingo update is the weighted mean of the old rating (weight 10 up to age 20, 15 up to age 25, 20 above) and the performances in the games, a performance being
  the opponent's rating minus (100 times the score minus 50); age is kept, and a player without games keeps the rating. The expected score is 0.5 plus a
  hundredth of the opponent's rating minus one's own, and the two expected scores add up to 1.''',
  ['inputs'], 'all ratings, ages, outcomes and lists of results, the empty list included',
  'The tests use a few ages and one list; the age classes and the list length select the weight for every input.',
  ['src/ingo.rs'], [('ingo', 'src/ingo.rs fn ingo'), ('ingo_rating_period', 'src/ingo.rs fn ingo_rating_period'), ('age development', 'src/ingo.rs fn age_to_devcoefficent'), ('expected_score', 'src/ingo.rs fn expected_score')])
P('C04', 'EGF follows its formula with handicaps and the floor of -900',
  '''An EGF game changes a rating by con times (score minus expected score) plus the bonus, where con = ((3300-r)/200)^1.6, bonus = ln(1+e^((2300-r)/80))/5 and the
  expected score compares the beta values of the two ratings, the handicapped player's being raised by 100 points per stone less 50. No result of a game or a rating period is
  ever below -900. In a rating period every game is rated from the rating at its start, and the changes add up as long as no single game crosses the floor.''',
  ['inputs', 'configurations'], 'all ratings from -900 up to 3300 (handicap included), handicaps for either player, outcomes and lists of results',
  'The tests check literals for a few ratings, mostly without handicap; the floor and the handicap branches depend on the inputs.',
  ['src/egf.rs'], [('egf', 'src/egf.rs fn egf'), ('egf_rating_period', 'src/egf.rs fn egf_rating_period'), ('expected_score', 'src/egf.rs fn expected_score'), ('con, bonus, beta', 'src/egf.rs private functions')])
P('C05', 'DWZ follows its formula, and first ratings need a valid set of games',
  '''A DWZ update changes the rating by 800/(E+n) times (points minus expected points), with the development coefficient E built from rating, age, index, acceleration
  (juniors scoring at least what is expected) and braking (below 1300, scoring at most what is expected), and raises the index by one; a player without games keeps the rating.
  A first rating needs at least five games and a score strictly between 0 and 100 per cent, gives the matching error otherwise, and is the mean opponent plus the federation's table value,
  compressed below 800; it has index 1 and the given age.''',
  ['inputs'], 'all ratings, indices, ages, outcomes and lists of results',
  'The tests check single literals per branch; the branches are selected by comparisons between score and expectation for every input.',
  ['src/dwz.rs'], [('dwz', 'src/dwz.rs fn dwz'), ('dwz_rating_period', 'src/dwz.rs fn dwz_rating_period'), ('get_first_dwz', 'src/dwz.rs fn get_first_dwz'), ('e0, e coefficient', 'src/dwz.rs fn e0_value, e_value')])
P('C06', 'USCF follows its formula for new and established players, never below 100',
  '''A player with at most eight games gets the average of the provisional performance (opponent plus or minus 400); with more games the change is 800/(effective games + games played) times (score minus
  expected score), plus the bonus above the threshold when at least three games were played. The number of games grows by the games played, and no resulting rating is below 100.
  Without results nothing changes.''',
  ['inputs', 'configurations'], 'all ratings, game counts, thresholds, outcomes and lists of results',
  'The tests sample some ratings and game counts; special/regular rule, effective games, bonus and floor are chosen by the inputs.',
  ['src/uscf.rs'], [('uscf', 'src/uscf.rs fn uscf'), ('uscf_rating_period', 'src/uscf.rs fn uscf_rating_period'), ('expected_score', 'src/uscf.rs fn expected_score, expected_score_rating_period'), ('effective games, K', 'src/uscf.rs private functions')])
P('C07', 'Glicko follows its published equations in games and rating periods',
  '''Glicko updates follow Glickman's equations: the deviation first grows by c (never beyond 350), then rating and deviation are updated from the sums over all games of g and of the information, where opponents
  enter with the ratings they have at the start of the period. A period without games only grows the deviation, as does deviation decay. The expected score uses g of the combined deviation, and the 95% interval
  is the rating plus or minus 1.96 deviations.''',
  ['inputs', 'configurations'], 'all ratings, deviations, c, outcomes and lists of results',
  'The tests check literals of a few games; the equations have to hold for all inputs, including the cap at 350.',
  ['src/glicko.rs'], [('glicko', 'src/glicko.rs fn glicko'), ('glicko_rating_period', 'src/glicko.rs fn glicko_rating_period'), ('decay', 'src/glicko.rs fn decay_deviation'), ('expected_score', 'src/glicko.rs fn expected_score')])
P('C08', "Glicko-2 follows Glickman's algorithm, volatility iteration included",
  '''Glicko-2 results follow Glickman's eight steps: the new volatility is the one found by the Illinois iteration for the given tau and tolerance, and rating and deviation follow from it and the sums over all games.
  A period without games keeps rating and volatility and only grows the deviation by the volatility (never beyond 350), as does deviation decay.
  The expected score uses g of the combined deviation, and the 95% interval is the rating plus or minus 1.96 deviations.''',
  ['inputs', 'configurations'], 'all ratings, deviations, volatilities, tau, tolerances, outcomes and lists of results (iterations up to a bound)',
  'The tests check literals of a few games with the default configuration; the iteration takes a different path for every input.',
  ['src/glicko2.rs'], [('glicko2', 'src/glicko2.rs fn glicko2'), ('glicko2_rating_period', 'src/glicko2.rs fn glicko2_rating_period'), ('volatility', 'src/glicko2.rs fn new_volatility'), ('decay', 'src/glicko2.rs fn decay_deviation')])
P('C09', 'Glicko-Boost follows its equations with colours, boost and inflation',
  '''Glicko-Boost updates follow the published equations: eta counts for the player with the white pieces and against the player with the black ones, the deviation of an exceptional performance (Z above k) is boosted by b,
  and the final deviation is inflated by the alpha polynomial and capped at 350. A period without games only inflates the deviation, as does deviation decay. The expected score uses g of the combined deviation
  and eta by colour, and the 95% interval is the rating plus or minus 1.96 deviations.''',
  ['inputs', 'configurations'], 'all ratings, deviations, configurations, outcomes, colours and lists of results',
  'The tests check literals, mostly with the default configuration and few colours; boost and caps depend on the inputs.',
  ['src/glicko_boost.rs'], [('glicko_boost', 'src/glicko_boost.rs fn glicko_boost'), ('glicko_boost_rating_period', 'src/glicko_boost.rs fn glicko_boost_rating_period'), ('decay', 'src/glicko_boost.rs fn decay_deviation'), ('expected_score', 'src/glicko_boost.rs fn expected_score')])
P('C10', 'Sticko follows its equations and is Glicko when its parameters are zero',
  '''Sticko updates follow the published equations: gamma counts for white and against black, beta is added to every score, lambda pulls the rating towards the mean opponent, h adds variance per game, and the deviation
  grows by c before the games and never exceeds 350. With h, beta, lambda and gamma zero the results are exactly those of Glicko. A period without games only grows the deviation; the expected score uses
  gamma by colour, and the 95% interval is the rating plus or minus 1.96 deviations.''',
  ['inputs', 'configurations'], 'all ratings, deviations, configurations, outcomes, colours and lists of results',
  'The tests check literals of a few games; the equations have to hold for all inputs and parameters.',
  ['src/sticko.rs', 'src/glicko.rs'], [('sticko', 'src/sticko.rs fn sticko'), ('sticko_rating_period', 'src/sticko.rs fn sticko_rating_period'), ('decay', 'src/sticko.rs fn decay_deviation'), ('expected_score', 'src/sticko.rs fn expected_score, expected_score_rating_period')])
P('C11', 'Weng-Lin follows the Bradley-Terry full-pair update for players and teams',
  '''Weng-Lin updates follow the published equations. With c the square root of the summed variances plus 2 beta squared (of two players or of two teams) and p the logistic of the rating difference over c, a rating moves by
  variance over c times (score minus p), and a variance is multiplied by one minus (variance over c squared) times (uncertainty over c) p(1-p), or by the uncertainty tolerance if that is larger; members of a team share the team's change in
  proportion to their variance. With several teams the terms of all pairs add up, the better rank winning and equal ranks drawing, and the order of the teams is kept. A rating period is the fold of the single-game update.
  Expected scores are the logistic values; with several teams they are the shares of the exponentials of rating over c and add up to 1. Empty teams change nothing.''',
  ['inputs', 'configurations'], 'all ratings, uncertainties, betas, tolerances, outcomes, team sizes and ranks within the bounds',
  'The tests check literals of a few matches; the equations have to hold for all ratings, team shapes and rank orders, ties included.',
  ['src/weng_lin.rs'], [('weng_lin', 'src/weng_lin.rs fn weng_lin'), ('weng_lin_rating_period', 'src/weng_lin.rs fn weng_lin_rating_period'), ('weng_lin_two_teams', 'src/weng_lin.rs fn weng_lin_two_teams'), ('weng_lin_multi_team', 'src/weng_lin.rs fn weng_lin_multi_team'), ('expected scores', 'src/weng_lin.rs fn expected_score*')])
P('C12', 'TrueSkill follows its closed-form update for players, periods and two teams',
  '''TrueSkill updates of two players or two teams follow the published closed form: with c squared the number of players times beta squared plus all variances and the draw margin the normal quantile of (1 + draw probability)/2 times beta times the square root
  of the number of players, a rating moves by (variance + tau squared)/c times v, up for winners and down for losers, and the new variance is (variance + tau squared) times (1 - (variance + tau squared)/c squared times w), v and w being the truncated-normal corrections for a win or
  a draw. A rating period is the fold of the single-game update; empty teams change nothing. The expected score is the normal distribution function of the rating difference over c, and the conservative rank is rating minus three uncertainties.''',
  ['inputs', 'configurations'], 'all ratings, uncertainties, betas, dynamics factors, outcomes and team sizes within the bounds',
  'The tests check literals of a few games, mostly with the default configuration; the corrections branch on the inputs.',
  ['src/trueskill/mod.rs', 'src/trueskill/math.rs', 'src/trueskill/erf.rs', 'src/trueskill/gaussian.rs'], [('trueskill', 'src/trueskill/mod.rs fn trueskill'), ('trueskill_rating_period', 'src/trueskill/mod.rs fn trueskill_rating_period'), ('trueskill_two_teams', 'src/trueskill/mod.rs fn trueskill_two_teams'), ('v, w', 'src/trueskill/math.rs v_draw, v_non_draw, w_draw, w_non_draw'), ('normal distribution', 'src/trueskill/erf.rs, src/trueskill/gaussian.rs')])
P('C13', 'TrueSkill rates several teams by message passing along the ranking',
  '''trueskill_multi_team (and the MultiTeamRatingSystem trait of TrueSkill) gives what expectation propagation gives on the chain of teams sorted by rank: a team's performance is the weighted sum of its members' performances, which have the rating and the variance plus tau squared
  plus beta squared of the player; neighbours in the ranking differ by more than the draw margin (quantile times beta times the root of the number of their players), or by at most that when their ranks are equal; messages go forward and backward until nothing moves by more than 1e-4, ten times at most.
  Two teams get the closed-form two-team update. Players without weights count fully; a player of weight zero keeps the rating and gains only tau squared of variance. Results come back in the order of the input, whatever the order of teams and members, and only the order of ranks counts.''',
  ['inputs', 'configurations'], 'all ratings, uncertainties, betas, dynamics factors, weights, team shapes, ties and orders within the bounds',
  'The tests check literals of a few team games; the factor graph runs a data-dependent number of iterations over shared variables, where a wrong message shows only for particular shapes.',
  ['src/trueskill/mod.rs', 'src/trueskill/schedule.rs', 'src/trueskill/factor_graph.rs', 'src/trueskill/gaussian.rs', 'src/trueskill/math.rs'], [('trueskill_multi_team', 'src/trueskill/mod.rs fn trueskill_multi_team, src/trueskill/schedule.rs'), ('factors', 'src/trueskill/factor_graph.rs'), ('Gaussian', 'src/trueskill/gaussian.rs')])
ALL = ['src/elo.rs', 'src/fifa.rs', 'src/dwz.rs', 'src/uscf.rs', 'src/ingo.rs', 'src/egf.rs', 'src/glicko.rs', 'src/glicko2.rs', 'src/glicko_boost.rs', 'src/sticko.rs', 'src/weng_lin.rs', 'src/trueskill/mod.rs']
P('C14', 'Expected scores are complementary, symmetric, monotone probabilities',
  '''In every rating system the expected scores of the two sides add up to 1, lie in [0,1] (Ingo's linear scale excepted), do not depend on the order of the arguments (colours and handicaps excepted), are at least one half for the
  higher rated side (lower for Ingo; colour advantage counted), and never fall when one's own rating rises. The expected scores of a rating period are those of the single games, in order; those of several teams (Weng-Lin, TrueSkill) are
  one per team and add up to 1. For TrueSkill this holds up to the accuracy of its normal distribution function (1e-6).''',
  ['inputs', 'configurations'], 'all ratings, deviations and configurations of all twelve rating systems, all lists of opponents and teams within the bounds',
  'The tests print a handful of expected scores; being probabilities that agree from both points of view is a statement about all inputs.',
  ALL, [('expected_score', 'fn expected_score, expected_score_rating_period in every module'), ('teams', 'fn expected_score_two_teams, expected_score_multi_team in src/weng_lin.rs, src/trueskill/mod.rs')])
P('C15', 'Results point the right way: winning never costs, losing never pays',
  '''In every rating system a better result never leads to a worse new rating than a worse result in the same game (in a rating period: of the last game, whatever the others were). In EGF, Elo, FIFA (outside shoot-outs and knockout), DWZ, Glicko, Glicko-2, Glicko-Boost, Sticko without lambda and beta, Weng-Lin and TrueSkill
  (two players or two teams, every member) a winner's rating never falls and a loser's never rises, in USCF so for players with more than eight games, and where draws are covered (Elo, FIFA, DWZ, Glicko, Weng-Lin) they never move the higher rated up or the lower rated down.
  With several Weng-Lin teams the first never loses and the last never gains.''',
  ['inputs', 'configurations'], 'all ratings, deviations, configurations and outcomes of a game within the bounds',
  'The tests fix a few games; the sign of a change has to be right for every pair of ratings.',
  ALL, [('single games', 'elo, fifa, dwz, uscf, ingo, egf, glicko, glicko2, glicko_boost, sticko, weng_lin, trueskill'), ('teams', 'weng_lin_two_teams, weng_lin_multi_team, trueskill_two_teams')])
P('C16', 'Both points of view of a game agree',
  '''Naming the players (or teams) of a game in the other order, with the outcome turned round (and the handicap or colour advantage negated), gives the same new ratings in the other order, in every rating system and for TrueSkill match quality.
  What belongs to the opponent alone (age, index, number of games, volatility) does not change one's own new rating.''',
  ['inputs', 'configurations'], 'all ratings, outcomes, configurations and team sizes within the bounds',
  'The two halves of every update are written out separately; tests compare each with literals of a few games.',
  ALL, [('single games', 'elo, fifa, dwz, uscf, ingo, egf, glicko, glicko2, glicko_boost, sticko, weng_lin, trueskill'), ('teams', 'weng_lin_two_teams, trueskill_two_teams'), ('match quality', 'src/trueskill/mod.rs fn match_quality, match_quality_two_teams')])
P('C17', 'Rating periods agree with single games, and order or splitting does not matter',
  '''A rating period with one result gives exactly what the single game gives that player. A period without results leaves the rating unchanged (and the uncertainty, or grows it exactly as deviation decay does). In the systems that rate all games from the
  rating at the start of the period (Ingo, DWZ, USCF, EGF away from its floor, Glicko, Glicko-2, Glicko-Boost, Sticko) the order of the results does not matter; in the sequential ones (Elo, FIFA, Weng-Lin, TrueSkill) a period may be split anywhere into
  two periods in a row.''',
  ['inputs', 'configurations', 'histories'], 'all ratings, configurations, outcomes and lists of results within the bounds',
  'The period functions are separate implementations; tests compare a few lists with literals.',
  ALL, [('periods', '*_rating_period in every module'), ('single games', 'the single-game function of every module'), ('decay', 'decay_deviation in src/glicko.rs, src/glicko2.rs, src/glicko_boost.rs, src/sticko.rs')])
P('C19', 'The trait interface gives exactly what the functions give',
  '''For every rating system, a system created through the RatingSystem, RatingPeriodSystem, TeamRatingSystem or MultiTeamRatingSystem trait rates games and periods and gives expected scores exactly as the functions of its module do with the same configuration
  (in rating periods every game has the configuration of the system, and with colours the player is white).''',
  ['inputs', 'configurations'], 'all ratings, configurations, outcomes, lists of results and teams within the bounds',
  'The tests instantiate each trait once, mostly with the default configuration; an implementation that forwards the wrong argument shows only for other inputs.',
  ['src/lib.rs'] + ALL, [('traits', 'src/lib.rs RatingSystem, RatingPeriodSystem, TeamRatingSystem, MultiTeamRatingSystem'), ('implementations', 'impl ... for Elo, Fifa, DWZ, USCF, Ingo, EGF, Glicko, Glicko2, GlickoBoost, Sticko, WengLin, TrueSkill')])
P('C20', 'Teams: one member is a player, and naming, order and rank numbers are immaterial',
  '''Two teams of one player each are rated (and expected to score, and matched in quality) as the two players are. Two teams rated through the multi-team function of Weng-Lin get what the two-team function gives, and the expected scores of two teams through the multi-team functions of
  Weng-Lin and TrueSkill are those of the two-team functions. Changing the order of members or of teams changes only the order of the results; of the ranks only their order counts. Equal teams that tie keep their ratings, and with an empty team nothing changes.''',
  ['inputs', 'configurations'], 'all ratings, configurations, team sizes, permutations and ranks within the bounds',
  'The tests check a few fixed team compositions; permutation and rank invariance quantify over all of them.',
  ['src/weng_lin.rs', 'src/trueskill/mod.rs', 'src/lib.rs'], [('weng_lin_two_teams', 'src/weng_lin.rs fn weng_lin_two_teams'), ('weng_lin_multi_team', 'src/weng_lin.rs fn weng_lin_multi_team'), ('trueskill_two_teams', 'src/trueskill/mod.rs fn trueskill_two_teams'), ('expected scores', 'fn expected_score_two_teams, expected_score_multi_team'), ('ranks', 'src/lib.rs struct MultiTeamOutcome')])
P('C21', 'Conversions between rating systems follow the documented formulas',
  '''Converting a rating into another system (From) follows the documented formulas: Elo to and from DWZ and FIFA keeps the rating, Elo to and from Ingo is 355 (2840) minus an eighth (eight times) of it, Elo to USCF and back is the piecewise linear map with its bend at
  2000 (2060), the Glicko family keeps rating and deviation (Glicko-2 starts with volatility 0.06), and Weng-Lin and TrueSkill keep rating and uncertainty. Conversions are monotone, ages and indices get the documented defaults, and ratings built from plain numbers hold these numbers.''',
  ['inputs'], 'all ratings, deviations, ages, indices and numbers of games, for every From implementation',
  'The tests convert one or two ratings each; the formulas are piecewise and have to hold for all.',
  ALL, [('From', 'impl From in every module')])
P('C24', 'New ratings, defaults, scores, ranks and intervals are as documented',
  '''Rating::new keeps the rating and uncertainty it is given and fills in the documented defaults otherwise; systems without uncertainty have none. DWZ, Ingo and USCF ratings made from an age have the documented start (USCF 50 points a year between 100 and 1300). Configurations have the
  documented defaults. Outcomes count 1, 0.5 and 0, ranks compare as their numbers do, intervals are 1.96 deviations to either side, and the TrueSkill rank is the rating minus three uncertainties.''',
  ['inputs'], 'all ratings, uncertainties, ages and ranks within the bounds',
  'The tests check single values of each; the statement is about all values.',
  ['src/lib.rs'] + ALL, [('Rating', 'src/lib.rs trait Rating and its implementations'), ('Outcomes, MultiTeamOutcome', 'src/lib.rs'), ('intervals', 'fn confidence_interval, get_rank')])
TSF = ['src/trueskill/mod.rs', 'src/trueskill/matrix.rs', 'src/trueskill/weights.rs']
P('C23', 'TrueSkill match quality is the same probability however it is asked for',
  '''The match quality of teams with (weighted) mean ratings m, performance variances b and total variances s is sqrt(B/S) exp(-Q/2), with B and S the sums of the products of all but one of the b and s, and Q the sum over pairs of teams of the squared difference of m times the product of the
  other s, over S; for two players or two teams that is the usual formula. So it lies in [0,1], does not depend on the order of players or teams, is higher for closer ratings, and is the same through the functions for two players, rating periods, two teams and several teams; no weights means
  all weights one. Without teams, with an empty team or with a single team it is 0.''',
  ['inputs', 'configurations'], 'all ratings, uncertainties, betas, weights and team shapes within the bounds',
  'The tests check a few literals; the multi-team function inverts matrices whose size and entries depend on the input.',
  TSF, [('match_quality*', 'src/trueskill/mod.rs fn match_quality, match_quality_rating_period, match_quality_two_teams, match_quality_multi_team'), ('matrices', 'src/trueskill/matrix.rs')])
P('C25', 'TrueSkill weights are validated, and errors name what is wrong',
  '''Weights given to the TrueSkill multi-team functions must match the teams: a wrong number of teams is TeamAmount, otherwise the first team (in order) with a wrong number of weights or a negative weight is named, PlayerAmount with the team or Weight with team and player. Weights that are
  not negative and fit the teams are never an error, nor is leaving them out. A single team keeps its ratings.''',
  ['inputs'], 'all weights, signs and shapes of weights and teams within the bounds',
  'The tests try one wrong weight of each kind; which error is named depends on all of the weights.',
  TSF, [('get_weights', 'src/trueskill/weights.rs fn get_weights'), ('users', 'src/trueskill/mod.rs fn trueskill_multi_team, match_quality_multi_team')])
P('C18', 'Games never raise an uncertainty, inactivity never lowers it, limits hold',
  '''After any game or rating period the deviation of Glicko, Glicko-Boost and Sticko is above 0 and at most 350, and that of Glicko-2 is above 0. In Glicko a period leaves at most the deviation that inactivity alone would, one more game never raises it, and who won does not matter to it. A period of
  inactivity (decay_deviation) never lowers a deviation, never takes it above 350, and leaves rating and volatility alone. The uncertainty of Weng-Lin never grows in a game, for single players, teams or several teams, stays positive, and is not cut below the configured tolerance.''',
  ['inputs', 'configurations', 'histories'], 'all ratings, deviations, configurations, outcomes, lists and team shapes within the bounds',
  'The tests compare single deviations with literals; the direction of every change is a statement about all inputs.',
  ['src/glicko.rs', 'src/glicko2.rs', 'src/glicko_boost.rs', 'src/sticko.rs', 'src/weng_lin.rs'], [('deviations', 'src/glicko.rs, src/glicko2.rs, src/glicko_boost.rs, src/sticko.rs: *_rating_period, decay_deviation'), ('uncertainties', 'src/weng_lin.rs fn weng_lin, weng_lin_two_teams, weng_lin_multi_team')])
P('C22', 'Every call with sensible input returns finite ratings of the right shape',
  '''Every public rating and expected-score function returns (no panic, no arithmetic overflow, no index out of range) with finite numbers for all ratings, configurations, outcomes, ages, numbers of games and ranks in the documented ranges, whatever the shape of the input: empty lists of results, no
  teams, one team, empty teams, teams of different sizes, all ranks equal. The results have the shape of the input: as many teams, each with as many players, in order.''',
  ['inputs', 'configurations'], 'all numbers, lists and shapes within the bounds',
  'A panic or NaN hides in the combination of shape and value that no test has; the solver takes all of them.',
  ['src/lib.rs'] + ALL, [('all public functions', 'every module')])
