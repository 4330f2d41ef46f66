# Planted bugs: id, property, edits (file under src, old, new), what they need, what they break, demonstration.
BUGS = []
def bug(id, prop, edits, needs, breaks, demo, **k):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, **k))

bug('glicko2-vola-swap', 'C03', [('glicko2.rs',
'''    let player_two_new_volatility = new_volatility(
        player_two.volatility,''', '''    let player_two_new_volatility = new_volatility(
        player_one.volatility.max(player_two.volatility),''')],
'two players with different volatilities, the first one the more volatile',
'player two starts the volatility iteration from the volatility of player one, so the result depends on who is passed first',
'''use skillratings::{glicko2::*, Outcomes};
fn main() {
    let a = Glicko2Rating { rating: 1500.0, deviation: 100.0, volatility: 0.09 };
    let b = Glicko2Rating { rating: 1600.0, deviation: 150.0, volatility: 0.05 };
    let c = Glicko2Config::new();
    let x = glicko2(&a, &b, &Outcomes::WIN, &c);
    let y = glicko2(&b, &a, &Outcomes::LOSS, &c);
    assert_eq!(x, (y.1, y.0));
}''')

bug('weng-lin-pair-cache', 'C09', [('weng_lin.rs',
'''    let mut new_teams = Vec::with_capacity(teams_and_ranks.len());
    for (i, (team_one, rank_one))''', '''    // c is the same for both sides of a pairing, so it is only calculated once.
    let mut c_values = vec![0.0; 2 * teams_and_ranks.len()];

    let mut new_teams = Vec::with_capacity(teams_and_ranks.len());
    for (i, (team_one, rank_one))'''), ('weng_lin.rs',
'''            let c = 2.0f64
                .mul_add(
                    config.beta.powi(2),
                    teams_uncertainties_sq[i] + teams_uncertainties_sq[q],
                )
                .sqrt();

            let (p, _) = p_value(teams_ratings[i]''', '''            if c_values[i + q] == 0.0 {
                c_values[i + q] = 2.0f64
                    .mul_add(
                        config.beta.powi(2),
                        teams_uncertainties_sq[i] + teams_uncertainties_sq[q],
                    )
                    .sqrt();
            }
            let c = c_values[i + q];

            let (p, _) = p_value(teams_ratings[i]''')],
'four or more teams with different uncertainties (two pairings share a cache slot)',
'the results of a multi-team game depend on the position of the teams',
'''use skillratings::{weng_lin::*, MultiTeamOutcome};
fn main() {
    let t: Vec<Vec<WengLinRating>> = [8.3, 2.0, 5.0, 1.0].iter().map(|u| vec![WengLinRating { rating: 25.0, uncertainty: *u }]).collect();
    let c = WengLinConfig::new();
    let a: Vec<(&[WengLinRating], MultiTeamOutcome)> = t.iter().enumerate().map(|(i, t)| (&t[..], MultiTeamOutcome::new(i + 1))).collect();
    let mut b = a.clone();
    b.swap(0, 1);
    let x = weng_lin_multi_team(&a, &c);
    let y = weng_lin_multi_team(&b, &c);
    assert!((x[0][0].rating - y[1][0].rating).abs() < 1e-9, "{x:?} {y:?}");
}''')

bug('trueskill-margin-size', 'C10', [('trueskill/mod.rs',
'''    let draw_margin = draw_margin(config.draw_probability, config.beta, total_players);
''', '''    let draw_margin = draw_margin(
        config.draw_probability,
        config.beta,
        2.0 * team_one.len() as f64,
    );
''')],
'two teams of different size',
'the draw margin of a two-team game counts the first team twice, so two-team and multi-team functions disagree',
'''use skillratings::{trueskill::*, Outcomes, MultiTeamOutcome};
fn main() {
    let c = TrueSkillConfig { draw_probability: 0.2, beta: 4.0, dynamics_factor: 0.0 };
    let a = vec![TrueSkillRating { rating: 20.0, uncertainty: 2.0 }; 3];
    let b = vec![TrueSkillRating { rating: 50.0, uncertainty: 3.0 }];
    let (x, y) = trueskill_two_teams(&a, &b, &Outcomes::WIN, &c);
    let z = trueskill_multi_team(&[(&a, MultiTeamOutcome::new(1)), (&b, MultiTeamOutcome::new(2))], &c, None).unwrap();
    assert!((x[0].rating - z[0][0].rating).abs() < 1e-3 && (y[0].rating - z[1][0].rating).abs() < 1e-3, "{x:?} {z:?}");
}''')

bug('fifa-trait-penalties', 'C11', [('fifa.rs',
'''            results.iter().map(|r| (r.0, r.1, self.config)).collect();''',
'''            results
                .iter()
                .map(|r| {
                    (
                        r.0,
                        r.1,
                        FifaConfig {
                            penalties: self.config.penalties && r.1 != Outcomes::LOSS,
                            ..self.config
                        },
                    )
                })
                .collect();''')],
'a Fifa system created with penalties and used through RatingPeriodSystem, and a lost shootout',
'the trait rates a lost shootout as a plain loss, the module function does not',
'''use skillratings::{fifa::*, Outcomes, RatingPeriodSystem};
fn main() {
    let c = FifaConfig { importance: 40.0, knockout: false, penalties: true };
    let p = FifaRating { rating: 1500.0 };
    let o = FifaRating { rating: 1400.0 };
    let s: Fifa = RatingPeriodSystem::new(c);
    let a = RatingPeriodSystem::rate(&s, &p, &[(o, Outcomes::LOSS)]);
    assert_eq!(a, fifa_rating_period(&p, &[(o, Outcomes::LOSS, c)]));
}''')

bug('uscf-elo-threshold', 'C12', [('elo.rs', '        if u.rating > 2060.0 {', '        if u.rating > 2000.0 {')],
'a USCF rating between 2000 and 2060 (Elo 1942 to 2000)',
'converting Elo to USCF and back no longer returns the starting value there',
'''use skillratings::{elo::EloRating, uscf::USCFRating};
fn main() {
    for e in [1500.0, 1960.0, 1999.0, 2001.0, 2400.0] {
        let u = USCFRating::from(EloRating { rating: e });
        let b = EloRating::from(u);
        assert!((b.rating - e).abs() < 1e-6, "{e} -> {u:?} -> {b:?}");
    }
}''')

bug('weng-lin-rank-table', 'C14', [('weng_lin.rs',
'''    let mut teams_ratings = Vec::with_capacity(teams_and_ranks.len());
''', '''    // Looking up the placements by rank is cheaper than comparing them.
    let last = teams_and_ranks.iter().map(|t| t.1.rank()).max().unwrap_or(0);
    let mut tied = vec![0_usize; last + 1];
    for (_, rank) in teams_and_ranks {
        tied[rank.rank()] += 1;
    }

    let mut teams_ratings = Vec::with_capacity(teams_and_ranks.len());
'''), ('weng_lin.rs', '                Ordering::Equal => 0.5,', '                Ordering::Equal => 1.0 / tied[rank_one.rank()].min(2) as f64,')],
'a placement number near the maximum of usize (a last place marked with usize::MAX, say)',
'the call panics or runs out of memory instead of returning',
'''use skillratings::{weng_lin::*, MultiTeamOutcome};
fn main() {
    let t = [WengLinRating::new()];
    for m in [100, usize::MAX] {
        let x = weng_lin_multi_team(&[(&t, MultiTeamOutcome::new(1)), (&t, MultiTeamOutcome::new(m))], &WengLinConfig::new());
        assert_eq!(x.len(), 2);
    }
}''')

bug('trueskill-margin-memo', 'C15', [('trueskill/mod.rs',
'''    inverse_cdf(f64::midpoint(draw_probability, 1.0), 0.0, 1.0) * total_players.sqrt() * beta
''', '''    thread_local! {
        static LAST: std::cell::Cell<(f64, f64, f64)> = const { std::cell::Cell::new((-1.0, 0.0, 0.0)) };
    }

    // The margin of one player is nearly always asked for with the same config.
    let (probability, last_beta, margin) = LAST.get();
    let margin = if probability.to_bits() == draw_probability.to_bits() && last_beta <= beta {
        margin
    } else {
        let margin = inverse_cdf(f64::midpoint(draw_probability, 1.0), 0.0, 1.0) * beta;
        LAST.set((draw_probability, beta, margin));
        margin
    };

    margin * total_players.sqrt()
''')],
'two calls on one thread with the same draw probability and different beta, the larger second',
'the second call is rated with the draw margin of the first configuration',
'''use skillratings::{trueskill::*, Outcomes};
fn main() {
    let a = TrueSkillRating { rating: 20.0, uncertainty: 2.0 };
    let b = TrueSkillRating { rating: 25.0, uncertainty: 3.0 };
    let big = TrueSkillConfig { draw_probability: 0.2, beta: 12.0, dynamics_factor: 0.1 };
    let small = TrueSkillConfig { draw_probability: 0.2, beta: 2.0, dynamics_factor: 0.1 };
    let x = std::thread::spawn(move || trueskill(&a, &b, &Outcomes::WIN, &big)).join().unwrap();
    let y = std::thread::spawn(move || { let _ = trueskill(&a, &b, &Outcomes::WIN, &small); trueskill(&a, &b, &Outcomes::WIN, &big) }).join().unwrap();
    assert_eq!(x, y);
}''')

bug('glicko-static-q', 'C15', [('glicko.rs',
'''fn g_value(q: f64, opponent_deviation: f64) -> f64 {
    (1.0 + ((3.0 * q.powi(2) * opponent_deviation.powi(2)) / (PI.powi(2))))
        .sqrt()
        .recip()
}''', '''fn g_value(q: f64, opponent_deviation: f64) -> f64 {
    // Most opponents of a period share the deviation of a new player.
    static mut LAST: (f64, f64) = (-1.0, 0.0);

    unsafe {
        if LAST.0 == opponent_deviation {
            return LAST.1;
        }

        let g = (1.0 + ((3.0 * q.powi(2) * opponent_deviation.powi(2)) / (PI.powi(2))))
            .sqrt()
            .recip();
        LAST = (opponent_deviation, g);
        g
    }
}''')],
'two threads rating Glicko games at the same time with different deviations',
'a data race: one thread can pair its deviation with the g value of another thread',
'''use skillratings::{glicko::*, Outcomes};
fn main() {
    let c = GlickoConfig::new();
    let game = move |d: f64| {
        let a = GlickoRating { rating: 1500.0, deviation: d };
        let b = GlickoRating { rating: 1600.0, deviation: 2.0 * d };
        glicko(&a, &b, &Outcomes::WIN, &c)
    };
    let want: Vec<_> = (1..=8).map(|i| game(10.0 * i as f64)).collect();
    let h: Vec<_> = (1..=8).map(|i| {
        let w = want[i - 1];
        std::thread::spawn(move || (0..3_000_000).filter(|_| game(10.0 * i as f64) != w).count())
    }).collect();
    let bad: usize = h.into_iter().map(|h| h.join().unwrap()).sum();
    assert_eq!(bad, 0);
}''')

bug('weights-order', 'C17', [('trueskill/weights.rs',
'''            if team.len() != teams[i].len() {
                return Err(WeightError::PlayerAmount { team: i });
            }

            for (j, &weight) in team.iter().enumerate() {''', '''            for (j, &weight) in team.iter().enumerate() {'''),
('trueskill/weights.rs', '''        return Ok(weights.iter().map(|team| team.to_vec()).collect());''',
'''        if let Some(i) = weights.iter().zip(teams).position(|(w, t)| w.len() != t.len()) {
            return Err(WeightError::PlayerAmount { team: i });
        }

        return Ok(weights.iter().map(|team| team.to_vec()).collect());''')],
'weights with two different problems, a wrong number of players in an earlier team and a negative weight in a later one',
'the error does not name the first problem',
'''use skillratings::{trueskill::*, MultiTeamOutcome};
fn main() {
    let t = [TrueSkillRating::new()];
    let w: [&[f64]; 2] = [&[1.0, 1.0], &[-1.0]];
    let e = trueskill_multi_team(&[(&t, MultiTeamOutcome::new(1)), (&t, MultiTeamOutcome::new(2))], &TrueSkillConfig::new(), Some(&w)).unwrap_err();
    assert!(format!("{e:?}").contains("PlayerAmount"), "{e:?}");
}''')

bug('first-dwz-rounded', 'C19', [('dwz.rs',
'''    // If you have a 100% or 0% win rate, we return None.
    if (points - results.len() as f64).abs() < f64::EPSILON || points == 0.0 {
        return Err(GetFirstDWZError::InvalidWinRate);
    }

''', ''), ('dwz.rs', '''    // We need to look up the points value in a lookup table:''', '''    // If you have a 100% or 0% win rate, we return None.
    if p == 100 || p == 0 {
        return Err(GetFirstDWZError::InvalidWinRate);
    }

    // We need to look up the points value in a lookup table:''')],
'more than a hundred games with all but a half point lost or won, so that the percentage rounds to 0 or 100',
'a player who is entitled to a first DWZ gets InvalidWinRate',
'''use skillratings::{dwz::*, Outcomes};
fn main() {
    let o = DWZRating { rating: 1500.0, index: 10, age: 30 };
    let mut r = vec![(o, Outcomes::LOSS); 150];
    r[0].1 = Outcomes::DRAW;
    assert!(get_first_dwz(30, &r).is_ok());
}''')

bug('serde-default-vola', 'C20', [('glicko2.rs',
'''    /// The player's Glicko-2 volatility number, by default 0.06.
    pub volatility: f64,''', '''    /// The player's Glicko-2 volatility number, by default 0.06.
    #[cfg_attr(feature = "serde", serde(skip_serializing_if = "is_new", default = "new_volatility_of_players"))]
    pub volatility: f64,'''), ('glicko2.rs', '''impl Glicko2Rating {
''', '''/// The volatility of a new player does not need to be stored.
#[cfg(feature = "serde")]
fn is_new(volatility: &f64) -> bool {
    (volatility - 0.06).abs() < 1e-4
}
#[cfg(feature = "serde")]
fn new_volatility_of_players() -> f64 {
    0.06
}

impl Glicko2Rating {
''')],
'the serde feature and a volatility close to, but not equal to, 0.06',
'a stored player comes back with another volatility',
'''use skillratings::glicko2::*;
fn main() {
    let p = Glicko2Rating { rating: 1500.0, deviation: 200.0, volatility: 0.05999 };
    let s = serde_json::to_string(&p).unwrap();
    let q: Glicko2Rating = serde_json::from_str(&s).unwrap();
    assert_eq!(p, q);
}''', serde=True)

bug('elo-400-rule', 'C21', [('elo.rs',
'''        let exp = (1.0 + 10_f64.powf((opponent.rating - player_rating) / 400.0)).recip();
''', '''        let exp = (1.0
            + 10_f64.powf((opponent.rating - player_rating).clamp(-1200.0, 1200.0) / 400.0))
        .recip();
''')],
'a rating period with an opponent more than 1200 points away',
'the period rates the game as if the gap were 1200 points',
'''use skillratings::{elo::*, Outcomes};
fn main() {
    let p = EloRating { rating: 900.0 };
    let o = EloRating { rating: 2400.0 };
    let c = EloConfig::new();
    let a = elo(&p, &o, &Outcomes::LOSS, &c).0;
    let b = elo_rating_period(&p, &[(o, Outcomes::LOSS)], &c);
    assert!((a.rating - b.rating).abs() < 1e-9, "{a:?} {b:?}");
}''')

bug('glicko-cap-late', 'C22', [('glicko.rs',
'''    let pre_deviation = player.deviation.hypot(config.c).min(350.0);
    let new_rating = (q''', '''    let pre_deviation = player.deviation.hypot(config.c);
    let new_rating = (q'''), ('glicko.rs', '''    let new_deviation = (pre_deviation.powi(2).recip() + d_sq.recip())
        .recip()
        .sqrt();
''', '''    let new_deviation = (pre_deviation.powi(2).recip() + d_sq.recip())
        .recip()
        .sqrt()
        .min(350.0);
''')],
'a rating period of a player whose deviation plus c exceeds 350',
'the deviation is capped after instead of before the update',
'''use skillratings::{glicko::*, Outcomes};
fn main() {
    let p = GlickoRating { rating: 1500.0, deviation: 340.0 };
    let o = GlickoRating { rating: 1500.0, deviation: 50.0 };
    let c = GlickoConfig { c: 120.0 };
    let a = glicko(&p, &o, &Outcomes::WIN, &c).0;
    let b = glicko_rating_period(&p, &[(o, Outcomes::WIN)], &c);
    assert!((a.rating - b.rating).abs() < 1e-9 && (a.deviation - b.deviation).abs() < 1e-9, "{a:?} {b:?}");
}''')

bug('sticko-h-late', 'C25', [('sticko.rs',
'''        .mul_add(pre_deviation, config.h * matches)''', '''        .mul_add(pre_deviation, config.h * matches.min(results.len().clamp(1, 15) as f64))''')],
'a rating period of more than fifteen games with h above 0',
'h is added for at most fifteen games',
'''use skillratings::{sticko::*, Outcomes};
fn main() {
    let p = StickoRating { rating: 1500.0, deviation: 60.0 };
    let o = StickoRating { rating: 3400.0, deviation: 30.0 };
    let c = StickoConfig { h: 50.0, beta: 0.0, lambda: 0.0, gamma: 0.0, c: 0.0 };
    // The opponents are so far away that the games carry no information: only h remains.
    let n = 40;
    let r = sticko_rating_period(&p, &vec![(o, Outcomes::LOSS, true); n], &c);
    let want = (60.0f64 * 60.0 + 50.0 * n as f64).sqrt();
    assert!((r.deviation - want).abs() < 1.0, "{r:?} {want}");
}''')

bug('dwz-age-25', 'C26', [('dwz.rs', '''        21..=25 => 10.0,
''', '''        21..=24 => 10.0,
''')],
'a player of exactly 25 years',
'the development coefficient of the wrong age class is used',
'''use skillratings::{dwz::*, Outcomes};
fn main() {
    let o = DWZRating { rating: 1600.0, index: 30, age: 40 };
    let at = |age| dwz(&DWZRating { rating: 1500.0, index: 30, age }, &o, &Outcomes::WIN).0.rating;
    assert_eq!(at(24), at(25));
    assert!(at(25) > at(26));
}''')

bug('uscf-ne-total', 'C28', [('uscf.rs',
'''    let ne = effective_game_number(rating, past_games);
''', '''    let ne = effective_game_number(rating, past_games.max(played_games));
''')],
'a rating period with more games than the player had played before (and still fewer than the effective number)',
'the effective number of games counts the games of the period',
'''use skillratings::{uscf::*, Outcomes};
fn main() {
    let p = USCFRating { rating: 1500.0, games: 9 };
    let r = vec![(USCFRating { rating: 1500.0, games: 30 }, Outcomes::LOSS); 12];
    let n = uscf_rating_period(&p, &r, &USCFConfig::new());
    let want = 1500.0 - 800.0 / (9.0 + 12.0) * 6.0;
    assert!((n.rating - want).abs() < 1e-6, "{n:?} {want}");
}''')

bug('egf-first-handicap', 'C29', [('egf.rs',
'''        let (exp1, _) = expected_score(player, opponent, config);
''', '''        // Nobody gives less than half a stone.
        let config = if config.handicap.abs() < 1.0 {
            &EGFConfig { handicap: 0.0 }
        } else {
            config
        };
        let (exp1, _) = expected_score(player, opponent, config);
''')],
'a rating period with a fractional handicap below one stone (a reduced komi)',
'the handicap of that game is dropped in periods',
'''use skillratings::{egf::*, Outcomes};
fn main() {
    let p = EGFRating { rating: 1500.0 };
    let o = EGFRating { rating: 1600.0 };
    let c = EGFConfig { handicap: 0.9 };
    let a = egf(&p, &o, &Outcomes::WIN, &c).0;
    let b = egf_rating_period(&p, &[(o, Outcomes::WIN, c)]);
    assert!((a.rating - b.rating).abs() < 1e-9, "{a:?} {b:?}");
}''')

bug('weng-lin-floor-teams', 'C30', [('weng_lin.rs',
'''    let new_player_uncertainty_sq = (player_uncertainty_sq / team_uncertainty_sq)
        .mul_add(-large_delta, 1.0)
        .max(uncertainty_tolerance);''', '''    let new_player_uncertainty_sq = (player_uncertainty_sq / team_uncertainty_sq)
        .mul_add(-large_delta.min(1.0 - uncertainty_tolerance), 1.0)
        .max(uncertainty_tolerance);''')],
'a game of many teams against a team with several very uncertain players, in which the information sums up to more than one',
'the shrinkage of the team is limited before it is shared among its players',
'''use skillratings::{weng_lin::*, MultiTeamOutcome};
fn main() {
    let u = 8.0;
    let n = 40;
    let t = vec![WengLinRating { rating: 25.0, uncertainty: u }; 2];
    let c = WengLinConfig { beta: 0.5, uncertainty_tolerance: 1e-6 };
    let a: Vec<(&[WengLinRating], MultiTeamOutcome)> = (0..n).map(|i| (&t[..], MultiTeamOutcome::new(i))).collect();
    let x = weng_lin_multi_team(&a, &c);
    let s2 = 2.0 * u * u;
    let cc = (2.0 * s2 + 2.0 * 0.25f64).sqrt();
    let delta = (n - 1) as f64 * (s2.sqrt() / cc) * s2 / (cc * cc) * 0.25;
    let want = (u * u * (1.0 - 0.5 * delta).max(1e-6)).sqrt();
    assert!((x[0][0].uncertainty - want).abs() < 1e-9, "{} {want}", x[0][0].uncertainty);
}''')

bug('trueskill-margin-first', 'C32', [('trueskill/schedule.rs',
'''        let draw_margin = draw_margin(draw_probability, beta, size);
''', '''        let draw_margin = if x > 0 && sorted_teams_and_ranks[x].1 != sorted_teams_and_ranks[x + 1].1 {
            let size: f64 = size;
            draw_margin(draw_probability, beta, size.min(2.0 * sorted_teams_and_ranks[x].0.len() as f64))
        } else {
            draw_margin(draw_probability, beta, size)
        };
''')],
'three or more teams, of which a larger one finishes directly behind a smaller one, not on the first two places',
'the draw margin of that pair does not count all of its players',
'''use skillratings::{trueskill::*, MultiTeamOutcome};
fn main() {
    // A clear last place behind a tight first place: the last two teams are (nearly) a two-team game.
    let c = TrueSkillConfig { draw_probability: 0.5, beta: 4.0, dynamics_factor: 0.0 };
    let top = vec![TrueSkillRating { rating: 5000.0, uncertainty: 0.01 }];
    let a = vec![TrueSkillRating { rating: 60.0, uncertainty: 4.0 }];
    let b = vec![TrueSkillRating { rating: 15.0, uncertainty: 4.0 }; 4];
    let two = trueskill_multi_team(&[(&a, MultiTeamOutcome::new(1)), (&b, MultiTeamOutcome::new(2))], &c, None).unwrap();
    let three = trueskill_multi_team(&[(&top, MultiTeamOutcome::new(1)), (&a, MultiTeamOutcome::new(2)), (&b, MultiTeamOutcome::new(3))], &c, None).unwrap();
    assert!((two[0][0].rating - three[1][0].rating).abs() < 0.05, "{two:?} {three:?}");
}''')

bug('dwz-index-wrap', 'C33', [('dwz.rs', '''    DWZRating {
        rating: new_rating,
        index: player.index + 1,
        age: player.age,
    }
}''', '''    DWZRating {
        rating: new_rating,
        // The index has no influence on the development coefficient any more from here on.
        index: (player.index + 1).min(60),
        age: player.age,
    }
}''')],
'a player with sixty evaluated events',
'the event counter stops counting in a long career',
'''use skillratings::{dwz::*, Outcomes};
fn main() {
    let o = DWZRating { rating: 1500.0, index: 5, age: 30 };
    let mut p = DWZRating::new(30);
    for i in 0..100 { assert_eq!(p.index, i + 1); p = dwz_rating_period(&p, &[(o, Outcomes::DRAW)]); }
}''')

bug('rating-new-clamp', 'C34', [('glicko_boost.rs',
'''            deviation: uncertainty.unwrap_or(350.0),''', '''            deviation: uncertainty.map_or(350.0, |u| if u > 0.0 { u.clamp(30.0, 350.0) } else { 350.0 }),''')],
'GlickoBoost through Rating::new with a deviation below 30',
'Rating::new does not store what it is given',
'''use skillratings::{glicko_boost::*, Rating};
fn main() {
    let r: GlickoBoostRating = Rating::new(Some(1500.0), Some(20.0));
    assert_eq!(r.deviation, 20.0);
}''')


bug('trueskill-period-floor', 'C07', [('trueskill/mod.rs',
'''        player_uncertainty = new_uncertainty(player_uncertainty, c, w, config.dynamics_factor);
    }

    TrueSkillRating {
        rating: player_rating,''', '''        player_uncertainty =
            new_uncertainty(player_uncertainty, c, w, config.dynamics_factor).max(0.5);
    }

    TrueSkillRating {
        rating: player_rating,''')],
'a TrueSkill period of a player whose uncertainty is below 0.5',
'a period with one game differs from the single game',
'''use skillratings::{trueskill::*, Outcomes};
fn main() {
    let c = TrueSkillConfig::new();
    let a = TrueSkillRating { rating: 25.0, uncertainty: 0.3 };
    let b = TrueSkillRating { rating: 26.0, uncertainty: 0.7 };
    assert_eq!(trueskill(&a, &b, &Outcomes::WIN, &c).0, trueskill_rating_period(&a, &[(b, Outcomes::WIN)], &c));
}''')

bug('glicko2-dedup', 'C08', [('glicko2.rs', '''    let scores: f64 = (results.iter().map(|r| {
        let g = g_value(r.0.deviation / 173.7178);

        let e = e_value(player_rating, (r.0.rating - 1500.0) / 173.7178, g);

        let s = r.1.to_chess_points();

        g * (s - e)
    }))
    .sum();
''', '''    let mut previous: Option<(Glicko2Rating, f64)> = None;
    let scores: f64 = (results.iter().map(|r| {
        // Several games against the same opponent share the expected score.
        let gse = match previous {
            Some((o, x)) if o == r.0 && r.1 == Outcomes::DRAW => x,
            _ => {
                let g = g_value(r.0.deviation / 173.7178);

                let e = e_value(player_rating, (r.0.rating - 1500.0) / 173.7178, g);

                let s = r.1.to_chess_points();

                g * (s - e)
            }
        };
        previous = Some((r.0, gse));
        gse
    }))
    .sum();
''')],
'two consecutive games against the same opponent, the second one drawn and the first one not',
'the draw counts like the previous game, so the order of the games matters',
'''use skillratings::{glicko2::*, Outcomes};
fn main() {
    let p = Glicko2Rating { rating: 1500.0, deviation: 200.0, volatility: 0.06 };
    let o = Glicko2Rating { rating: 1600.0, deviation: 90.0, volatility: 0.06 };
    let c = Glicko2Config::new();
    let a = glicko2_rating_period(&p, &[(o, Outcomes::WIN), (o, Outcomes::DRAW)], &c);
    let b = glicko2_rating_period(&p, &[(o, Outcomes::DRAW), (o, Outcomes::WIN)], &c);
    assert!((a.rating - b.rating).abs() < 1e-6, "{a:?} {b:?}");
}''')

bug('glicko-decay-shrink', 'C06', [('glicko_boost.rs',
'''    let decayed_deviation = (player
        .deviation
        .mul_add(
            player.deviation,
''', '''    let deviation = player.deviation.min(config.alpha.1.abs().max(300.0));
    let decayed_deviation = (deviation
        .mul_add(
            deviation,
''')],
'a Glicko-Boost player with a deviation above 300 who pauses',
'the deviation shrinks without any game being played',
'''use skillratings::glicko_boost::*;
fn main() {
    let p = GlickoBoostRating { rating: 1500.0, deviation: 345.0 };
    let n = decay_deviation(&p, &GlickoBoostConfig::new());
    assert!(n.deviation >= p.deviation, "{n:?}");
}''')


bug('egf-handicap-monotone', 'C02', [('egf.rs',
'''        100.0 * (handicap - 0.5)
    };
    -7.0 * (3300.0 - h - rating).ln()''', '''        100.0 * (handicap - 0.5)
    };
    // The advantage of handicap stones fades for the strongest players.
    let h = if rating > 2700.0 { h * 0.5 } else { h };
    -7.0 * (3300.0 - h - rating).ln()''')],
'a handicap of one stone or more given to a player around 2700',
'a higher rating lowers the expected score at 2700',
'''use skillratings::egf::*;
fn main() {
    let o = EGFRating { rating: 2750.0 };
    let c = EGFConfig { handicap: -2.0 };
    let e = |r| expected_score(&EGFRating { rating: r }, &o, &c).0;
    assert!(e(2701.0) >= e(2699.0), "{} {}", e(2699.0), e(2701.0));
}''')

bug('dwz-draw-credit', 'C04', [('dwz.rs',
'''    let points = results.iter().map(|r| r.1.to_chess_points()).sum();
''', '''    // A solid performance is worth something.
    let points: f64 = results.iter().map(|r| r.1.to_chess_points()).sum();
    let points = if results.len() > 6 && results.iter().all(|r| r.1 == Outcomes::DRAW) {
        points + 1.0
    } else {
        points
    };
''')],
'a period of at least seven games, all of them drawn',
'turning one of the draws into a win costs rating points',
'''use skillratings::{dwz::*, Outcomes};
fn main() {
    let o = DWZRating { rating: 1500.0, index: 5, age: 30 };
    let p = DWZRating { rating: 1500.0, index: 20, age: 30 };
    let d = vec![(o, Outcomes::DRAW); 7];
    let mut w = d.clone();
    w[3].1 = Outcomes::WIN;
    let a = dwz_rating_period(&p, &d);
    let b = dwz_rating_period(&p, &w);
    assert!(b.rating >= a.rating, "{a:?} {b:?}");
}''')

bug('trueskill-multi-exp', 'C01', [('trueskill/mod.rs',
'''        expected_scores.push(probability.iter().sum::<f64>() / total_probability);
''', '''        expected_scores
            .push((probability.iter().sum::<f64>() / total_probability).max(f64::EPSILON.sqrt() * 1e5));
''')],
'a multi-team game with a team so weak that its share is below 0.0015',
'the expected scores add up to more than 1',
'''use skillratings::trueskill::*;
fn main() {
    let t: Vec<Vec<TrueSkillRating>> = [30.0, 31.0, 0.0, 0.0, 0.0].iter().map(|r| vec![TrueSkillRating { rating: *r, uncertainty: 1.0 }]).collect();
    let t: Vec<&[TrueSkillRating]> = t.iter().map(|t| &t[..]).collect();
    let c = TrueSkillConfig { draw_probability: 0.1, beta: 1.0, dynamics_factor: 0.1 };
    for n in 3..=5 {
        let s: f64 = expected_score_multi_team(&t[..n], &c).iter().sum();
        assert!((s - 1.0).abs() < 1e-6, "{n} {s}");
    }
}''')

bug('fifa-not-zero-sum', 'C05', [('fifa.rs',
'''    let exp_one = (1.0 + 10_f64.powf(-(player_one.rating - player_two.rating) / 600.0)).recip();
    let exp_two = 1.0 - exp_one;''', '''    let exp_one = (1.0 + 10_f64.powf(-(player_one.rating - player_two.rating) / 600.0)).recip();
    let exp_two = if exp_one > 0.97 { 0.03 } else { 1.0 - exp_one };''')],
'teams more than 900 points apart, the stronger one first',
'the points lost by one side are not the points gained by the other',
'''use skillratings::{fifa::*, Outcomes};
fn main() {
    let a = FifaRating { rating: 2000.0 };
    let b = FifaRating { rating: 900.0 };
    let (x, y) = fifa(&a, &b, &Outcomes::WIN, &FifaConfig::new());
    assert!((x.rating + y.rating - 2900.0).abs() < 1e-9, "{x:?} {y:?}");
}''')

bug('fifa-knockout-shootout', 'C13', [('fifa.rs',
'''    if config.knockout && player_two.rating > new_rating2 {''', '''    if config.knockout && !(config.penalties && one_expected > two_expected) && player_two.rating > new_rating2 {'''.replace('one_expected > two_expected', 'two_expected > one_expected'))],
'a knockout match decided by a shootout in which the second team is the favourite and does not win',
'the favourite loses points in a knockout match',
'''use skillratings::{fifa::*, Outcomes};
fn main() {
    let c = FifaConfig { importance: 60.0, knockout: true, penalties: true };
    let a = FifaRating { rating: 1300.0 };
    let b = FifaRating { rating: 1800.0 };
    let (x, y) = fifa(&a, &b, &Outcomes::WIN, &c);
    assert!(x.rating >= a.rating && y.rating >= b.rating, "{x:?} {y:?}");
}''')

bug('dwz-age-mixup', 'C16', [('dwz.rs',
'''                index: player_two.index + 1,
                age: player_two.age,''', '''                index: player_two.index + 1,
                age: player_one.age.max(player_two.age),''')],
'a DWZ game between players of different age, the older one first',
'the second player comes back with the age of the first',
'''use skillratings::{dwz::*, Outcomes};
fn main() {
    let a = DWZRating { rating: 1500.0, index: 5, age: 60 };
    let b = DWZRating { rating: 1500.0, index: 5, age: 12 };
    let (x, y) = dwz(&a, &b, &Outcomes::DRAW);
    assert_eq!((x.age, y.age), (60, 12));
}''')

bug('quality-two-size', 'C18', [('trueskill/mod.rs',
'''    let total_players = (team_one.len() + team_two.len()) as f64;

    let rating_one_sum: f64 = team_one.iter().map(|p| p.rating).sum();
    let rating_two_sum: f64 = team_two.iter().map(|p| p.rating).sum();

    let uncertainty_one_sum: f64 = team_one.iter().map(|p| p.uncertainty.powi(2)).sum();
    let uncertainty_two_sum: f64 = team_two.iter().map(|p| p.uncertainty.powi(2)).sum();

    let a = ''', '''    let total_players = (2 * team_one.len().max(team_two.len())) as f64;

    let rating_one_sum: f64 = team_one.iter().map(|p| p.rating).sum();
    let rating_two_sum: f64 = team_two.iter().map(|p| p.rating).sum();

    let uncertainty_one_sum: f64 = team_one.iter().map(|p| p.uncertainty.powi(2)).sum();
    let uncertainty_two_sum: f64 = team_two.iter().map(|p| p.uncertainty.powi(2)).sum();

    let a = ''')],
'two teams of different size',
'the quality of a two-team match differs from the multi-team form and the published formula',
'''use skillratings::trueskill::*;
fn main() {
    let a = [TrueSkillRating { rating: 40.0, uncertainty: 3.0 }];
    let b = [TrueSkillRating { rating: 15.0, uncertainty: 2.0 }; 3];
    let c = TrueSkillConfig::new();
    let x = match_quality_two_teams(&a, &b, &c);
    let y = match_quality_multi_team(&[&a, &b], &c, None).unwrap();
    assert!((x - y).abs() < 1e-9, "{x} {y}");
}''')

bug('glicko2-early-stop', 'C23', [('glicko2.rs',
'''    while (b - a).abs() > convergence_tolerance {
        let c =''', '''    let mut rounds = 0;
    while (b - a).abs() > convergence_tolerance {
        // It converges quickly, so we do not need to wait for stragglers.
        rounds += 1;
        if rounds > 4 {
            break;
        }
        let c =''')],
'a surprising result, for which the iteration needs more than four rounds',
'the new volatility is not the root of the equation to within the configured tolerance',
'''use skillratings::{glicko2::*, Outcomes};
fn main() {
    let k = 173.7178;
    let cfg = Glicko2Config { tau: 1.2, convergence_tolerance: 1e-6 };
    for gap in (0..40).map(|i| 25.0 * i as f64) {
        for rd in [30.0, 60.0, 120.0] {
            let p = Glicko2Rating { rating: 1500.0, deviation: rd, volatility: 0.06 };
            let o = Glicko2Rating { rating: 1500.0 + gap, deviation: 30.0, volatility: 0.06 };
            let games = vec![(o, Outcomes::WIN); 8];
            let n = glicko2_rating_period(&p, &games, &cfg);
            let phi2 = (rd / k).powi(2);
            let g = 1.0 / (1.0 + 3.0 * (30.0 / k).powi(2) / std::f64::consts::PI.powi(2)).sqrt();
            let e = 1.0 / (1.0 + (g * gap / k).exp());
            let v = 1.0 / (8.0 * g * g * e * (1.0 - e));
            let d2 = (v * 8.0 * g * (1.0 - e)).powi(2);
            let a = (p.volatility * p.volatility).ln();
            let f = |x: f64| { let y = x.exp(); y * (d2 - phi2 - v - y) / (2.0 * (phi2 + v + y).powi(2)) - (x - a) / (cfg.tau * cfg.tau) };
            // The equation changes its sign within the tolerance of the answer.
            let x = 2.0 * n.volatility.ln();
            assert!(f(x - 1e-5) * f(x + 1e-5) <= 0.0, "gap {gap} rd {rd}: {}", n.volatility);
        }
    }
}''')

bug('boost-cap-early', 'C24', [('glicko_boost.rs',
'''        let pre_deviation = boost_rd(z, after_deviation, config);
''', '''        let pre_deviation = boost_rd(z, after_deviation, config).min(350.0);
''')],
'a boosted performance of a player with a large deviation (or strong boost constants), so that the boosted deviation exceeds 350',
'the cap is applied before the games are counted',
'''use skillratings::{glicko_boost::*, Outcomes};
fn main() {
    let p = GlickoBoostRating { rating: 1500.0, deviation: 345.0 };
    let o = GlickoBoostRating { rating: 2100.0, deviation: 200.0 };
    let c = GlickoBoostConfig { eta: 0.0, k: 1.0, b: (0.2, 50.0), ..GlickoBoostConfig::new() };
    let (r, _) = glicko_boost(&p, &o, &Outcomes::WIN, &c);
    let q = 10f64.ln() / 400.0;
    let g = 1.0 / (1.0 + 3.0 * q * q * 40000.0 / std::f64::consts::PI.powi(2)).sqrt();
    let e = 1.0 / (1.0 + 10f64.powf(-g * (1500.0 - 2100.0) / 400.0));
    let d = g * g * e * (1.0 - e);
    let z = g * (1.0 - e) / d.sqrt();
    assert!(z > 1.0);
    let after = 1.0 / (1.0 / (345.0f64 * 345.0) + q * q * d).sqrt();
    let pre = ((z - 1.0) * 0.2 + 1.0) * after + 50.0;
    let dev = (1.0 / (1.0 / (pre * pre) + q * q * d)).sqrt().min(350.0);
    let want = 1500.0 + dev * dev * q * g * (1.0 - e);
    assert!((r.rating - want).abs() < 1e-6, "{r:?} {want}");
}''')

bug('ingo-percent', 'C27', [('ingo.rs',
'''    let performance = performance(average_opponent_rating, average_points);
''', '''    // The published tables know full percentages only.
    let average_points = (average_points * 200.0).round() / 200.0;
    let performance = performance(average_opponent_rating, average_points);
''')],
'a period whose score is not a multiple of half a percent (seven games, say)',
'the percentage score is rounded',
'''use skillratings::{ingo::*, Outcomes};
fn main() {
    let p = IngoRating { rating: 130.0, age: 40 };
    let o = IngoRating { rating: 160.0, age: 40 };
    let mut r = vec![(o, Outcomes::LOSS); 7];
    r[0].1 = Outcomes::WIN;
    let n = ingo_rating_period(&p, &r);
    let want = ((160.0 - (100.0 / 7.0 - 50.0)) * 7.0 + 130.0 * 20.0) / 27.0;
    assert!((n.rating - want).abs() < 1e-9, "{n:?} {want}");
}''')

bug('trueskill-w-tail', 'C31', [('trueskill/math.rs',
'''    if norm < 2.222_758_749e-162 {
        if diff_c < 0.0 {
            return 1.0;
        }
        return 0.0;
    }''', '''    if norm < 2.222_758_749e-60 {
        if diff_c < 0.0 {
            return 1.0;
        }
        return 0.0;
    }''')],
'an upset between players more than sixteen standard deviations apart',
'the variance correction of the far tail is used too early, so the uncertainty shrinks too much',
'''use skillratings::{trueskill::*, Outcomes};
fn main() {
    let c = TrueSkillConfig { draw_probability: 0.0, beta: 0.5, dynamics_factor: 0.0 };
    let a = TrueSkillRating { rating: 20.0, uncertainty: 3.0 };
    let b = TrueSkillRating { rating: 76.0, uncertainty: 0.5 };
    let (x, _) = trueskill(&a, &b, &Outcomes::WIN, &c);
    // Variance of the difference given the upset, by numerical integration.
    let cc = (9.0f64 + 0.25 + 0.5).sqrt();
    let t0 = 56.0 / cc;
    let n = 2_000_000;
    let (mut z, mut m, mut q) = (0.0, 0.0, 0.0);
    for i in 0..n { let t = (i as f64 + 0.5) * 20.0 / n as f64 / t0; let w = (-(t * t0) - t * t / 2.0).exp(); z += w; m += w * t; q += w * t * t; }
    let var = q / z - (m / z) * (m / z);
    let want = (9.0 * (1.0 - 9.0 / (cc * cc) * (1.0 - var))).sqrt();
    assert!((x.uncertainty - want).abs() < 0.003, "{x:?} {want}");
}''')

bug('uscf-games-u16', 'C16', [('uscf.rs',
'''    USCFRating {
        rating: new_rating.max(100.0),
        games: player.games + results.len(),
    }
}''', '''    // The boost only needs a small number of games.
    let played = results.len() as u16;

    USCFRating {
        rating: new_rating.max(100.0),
        games: player.games + usize::from(played),
    }
}''')],
'an established player with more than 65,535 games in one period',
'the number of games is counted modulo 65,536',
'''use skillratings::{uscf::*, Outcomes};
fn main() {
    let p = USCFRating { rating: 1800.0, games: 30 };
    let r = vec![(USCFRating { rating: 1800.0, games: 30 }, Outcomes::DRAW); 70_000];
    assert_eq!(uscf_rating_period(&p, &r, &USCFConfig::new()).games, 70_030);
}''')

bug('trueskill-message-slots', 'C32', [('trueskill/factor_graph.rs',
'''    fn update_message(&mut self, factor_id: usize, message: Gaussian) -> f64 {
        let old_message = self.messages[&factor_id];''', '''    fn update_message(&mut self, factor_id: usize, message: Gaussian) -> f64 {
        let factor_id = self.slot(factor_id);
        let old_message = self.messages[&factor_id];'''), ('trueskill/factor_graph.rs',
'''    fn delta(&self, other: Gaussian) -> f64 {''', '''    // The identifier under which the message of a factor is kept.
    fn slot(&self, factor_id: usize) -> usize {
        let low = factor_id & 0x7f;
        if self.messages.contains_key(&low) {
            low
        } else {
            factor_id
        }
    }

    fn delta(&self, other: Gaussian) -> f64 {''')],
'a multi-team game with enough participants that two factors of one variable differ by a multiple of 128',
'the message of one factor overwrites that of another, the posterior is wrong',
'''use skillratings::{trueskill::*, MultiTeamOutcome};
fn main() {
    // 128 players: the prior factor i and the performance factor 128 + i of a player share a slot
    let t: Vec<Vec<TrueSkillRating>> = vec![vec![TrueSkillRating::new(); 64]; 2];
    let g: Vec<(&[TrueSkillRating], MultiTeamOutcome)> = t.iter().enumerate().map(|(i, t)| (&t[..], MultiTeamOutcome::new(i + 1))).collect();
    let c = TrueSkillConfig::new();
    let x = trueskill_multi_team(&g, &c, None).unwrap();
    let y = trueskill_two_teams(&t[0], &t[1], &skillratings::Outcomes::WIN, &c);
    assert!((x[0][0].rating - y.0[0].rating).abs() < 0.01, "{:?} {:?}", x[0][0], y.0[0]);
}''')

bug('trueskill-margin-address', 'C15', [('trueskill/mod.rs',
'''    let draw_margin = draw_margin(config.draw_probability, config.beta, total_players);

    let rating_one_sum''', '''    // The settings rarely change between two games.
    thread_local! {
        static LAST: std::cell::Cell<(usize, usize, f64)> = const { std::cell::Cell::new((0, 0, 0.0)) };
    }
    let key = std::ptr::from_ref(config) as usize;
    let (last_key, last_players, last_margin) = LAST.get();
    let draw_margin = if last_key == key && last_players == team_one.len() + team_two.len() {
        last_margin
    } else {
        draw_margin(config.draw_probability, config.beta, total_players)
    };
    LAST.set((key, team_one.len() + team_two.len(), draw_margin));

    let rating_one_sum''')],
'two settings that live at the same address one after the other, in games of equally many players',
'the draw margin of the previous settings is used: results depend on earlier calls',
'''use skillratings::{trueskill::*, Outcomes};
fn main() {
    let t = vec![TrueSkillRating::new(); 2];
    let mut c = TrueSkillConfig::new();
    c.draw_probability = 0.5;
    let want = trueskill_two_teams(&t, &t, &Outcomes::WIN, &c);
    c.draw_probability = 0.1;
    let _ = trueskill_two_teams(&t, &t[..1], &Outcomes::WIN, &c);
    let _ = trueskill_two_teams(&t, &t, &Outcomes::WIN, &c);
    c.draw_probability = 0.5;
    assert_eq!(trueskill_two_teams(&t, &t, &Outcomes::WIN, &c), want);
}''')

bug('matrix-adjugate-band', 'C18', [('trueskill/matrix.rs',
'''                matrix.set(
                    i,
                    j,
                    self.minor(j, i)''', '''                // Teams far apart do not influence each other.
                if i.abs_diff(j) > 3 {
                    continue;
                }
                matrix.set(
                    i,
                    j,
                    self.minor(j, i)''')],
'a match quality of six or more teams with different ratings',
'entries of the inverse far off the diagonal are dropped, the quality is wrong',
'''use skillratings::trueskill::*;
fn main() {
    let p: Vec<[TrueSkillRating; 1]> = [25.0, 30.0, 21.0, 27.0, 33.0, 20.0].iter().map(|r| [TrueSkillRating { rating: *r, uncertainty: 6.0 }]).collect();
    let a: Vec<&[TrueSkillRating]> = p.iter().map(|t| &t[..]).collect();
    let mut b = a.clone();
    b.swap(0, 3);
    b.swap(1, 5);
    let c = TrueSkillConfig::new();
    let (x, y) = (match_quality_multi_team(&a, &c, None).unwrap(), match_quality_multi_team(&b, &c, None).unwrap());
    assert!((x - y).abs() < 1e-9, "{x} {y}");
}''')

bug('weng-lin-rank-low-bits', 'C09', [('weng_lin.rs',
'''match rank_two.cmp(rank_one)''', '''match (rank_two.rank() as u32).cmp(&(rank_one.rank() as u32))''')],
'ranks of 2^32 and more (e.g. hashes or time stamps used as ranks)',
'only the low 32 bits of the ranks are compared, so relabelling the ranks changes the results',
'''use skillratings::{weng_lin::*, MultiTeamOutcome};
fn main() {
    let t = [WengLinRating::new()];
    let c = WengLinConfig::new();
    let f = |r: [usize; 3]| weng_lin_multi_team(&[(&t[..], MultiTeamOutcome::new(r[0])), (&t[..], MultiTeamOutcome::new(r[1])), (&t[..], MultiTeamOutcome::new(r[2]))], &c);
    assert_eq!(f([1, 2, 3]), f([1, 2, (1 << 32) + 1]));
}''')

bug('egf-handicap-even', 'C29', [('egf.rs',
'''        rating_change += new_rating(player.rating, con, outcome, exp1, bonus) - player.rating;''', '''        // A handicap of half a stone is an even game without komi.
        let outcome = if config.handicap.abs() == 0.5 && result == &Outcomes::DRAW {
            exp1
        } else {
            outcome
        };

        rating_change += new_rating(player.rating, con, outcome, exp1, bonus) - player.rating;''')],
'a draw with a handicap of exactly half a stone inside a rating period',
'that draw does not count in a period (it does in a single game)',
'''use skillratings::{egf::*, Outcomes};
fn main() {
    let (a, b) = (EGFRating { rating: 1000.0 }, EGFRating { rating: 1300.0 });
    let c = EGFConfig { handicap: 0.5 };
    let x = egf(&a, &b, &Outcomes::DRAW, &c).0;
    let y = egf_rating_period(&a, &[(b, Outcomes::DRAW, c)]);
    assert!((x.rating - y.rating).abs() < 1e-9, "{x:?} {y:?}");
}''')

bug('sticko-period-blocks', 'C25', [('sticko.rs',
'''        .mul_add(pre_deviation, config.h * matches)''', '''        .mul_add(pre_deviation, config.h * matches.min(64.0))''')],
'more than 64 games in one period with h above 0',
'the variance increment h no longer counts for every game of a long period',
'''use skillratings::{sticko::*, Outcomes};
fn main() {
    let p = StickoRating { rating: 1500.0, deviation: 60.0 };
    let r = vec![(StickoRating { rating: 1900.0, deviation: 300.0 }, Outcomes::DRAW, true); 100];
    let c = StickoConfig { h: 100.0, ..StickoConfig::new() };
    let x = sticko_rating_period(&p, &r, &c).deviation;
    assert!((x - demo(&p, &r, &c)).abs() < 1e-6, "{x} {}", demo(&p, &r, &c));
}
fn demo(p: &StickoRating, r: &[(StickoRating, Outcomes, bool)], c: &StickoConfig) -> f64 {
    let q = 10f64.ln() / 400.0;
    let info: f64 = r.iter().map(|(o, _, w)| {
        let g = 1.0 / (1.0 + 3.0 * q * q * o.deviation * o.deviation / std::f64::consts::PI.powi(2)).sqrt();
        let e = 1.0 / (1.0 + 10f64.powf(-g * (p.rating + if *w { c.gamma } else { -c.gamma } - o.rating) / 400.0));
        q * q * g * g * e * (1.0 - e)
    }).sum();
    let pre = p.deviation.hypot(c.c).min(350.0);
    (1.0 / (1.0 / (pre * pre + c.h * r.len() as f64) + info)).sqrt().min(350.0)
}''')

bug('weight-sum-check', 'C17', [('trueskill/weights.rs',
'''            for (j, &weight) in team.iter().enumerate() {
                if weight < 0.0 {''', '''            // A sum needs no look at every single weight.
            if team.iter().sum::<f64>() >= team.len() as f64 {
                continue;
            }

            for (j, &weight) in team.iter().enumerate() {
                if weight < 0.0 {''')],
'a negative weight in a team whose weights add up to at least the number of its players (e.g. 3 and -0.5)',
'negative weights are accepted',
'''use skillratings::{trueskill::*, MultiTeamOutcome};
fn main() {
    let t = [TrueSkillRating::new(), TrueSkillRating::new()];
    let g = [(&t[..], MultiTeamOutcome::new(1)), (&t[..], MultiTeamOutcome::new(2))];
    let w: [&[f64]; 2] = [&[1.0, 1.0], &[3.0, -0.5]];
    assert_eq!(trueskill_multi_team(&g, &TrueSkillConfig::new(), Some(&w)), Err(WeightError::Weight { team: 1, player: 1 }));
}''')

bug('expected-multi-player-count', 'C10', [('trueskill/mod.rs',
'''            let denom = (team_two_uncertainties
                + player_count.mul_add(config.beta.powi(2), team_one_uncertainties))
            .sqrt();

            let result''', '''            let pair_count = if teams.len() == 2 {
                2.0 * team_one.len().max(team_two.len()) as f64
            } else {
                player_count
            };
            let denom = (team_two_uncertainties
                + pair_count.mul_add(config.beta.powi(2), team_one_uncertainties))
            .sqrt();

            let result''')],
'two teams of different size passed to the multi-team expectation',
'the multi-team expectation of two teams differs from the two-team one',
'''use skillratings::trueskill::*;
fn main() {
    let (a, b) = (vec![TrueSkillRating::new(); 3], vec![TrueSkillRating { rating: 60.0, uncertainty: 3.0 }]);
    let c = TrueSkillConfig::new();
    let x = expected_score_two_teams(&a, &b, &c);
    let y = expected_score_multi_team(&[&a, &b], &c);
    assert!((x.0 - y[0]).abs() < 1e-6, "{x:?} {y:?}");
}''')

bug('weng-lin-scratch-leftover', 'C15', [('weng_lin.rs',
'''    // Just returning the original teams if a team is empty.
    for (team, _) in teams_and_ranks {
        if team.is_empty() {
            return teams_and_ranks
                .iter()
                .map(|(team, _)| team.to_vec())
                .collect();
        }
    }

    let mut teams_ratings = Vec::with_capacity(teams_and_ranks.len());
    let mut teams_uncertainties_sq = Vec::with_capacity(teams_and_ranks.len());

    for (team, _) in teams_and_ranks {
''', '''    // The buffers for the team totals are kept from game to game.
    thread_local! {
        static TOTALS: std::cell::RefCell<(Vec<f64>, Vec<f64>)> = const { std::cell::RefCell::new((Vec::new(), Vec::new())) };
    }
    let (mut teams_ratings, mut teams_uncertainties_sq) = TOTALS.with(std::cell::RefCell::take);

    for (team, _) in teams_and_ranks {
        // Just returning the original teams if a team is empty.
        if team.is_empty() {
            TOTALS.with(|t| t.replace((teams_ratings, teams_uncertainties_sq)));
            return teams_and_ranks
                .iter()
                .map(|(team, _)| team.to_vec())
                .collect();
        }

'''), ('weng_lin.rs', '''        new_teams.push(new_team);
    }

    new_teams
''', '''        new_teams.push(new_team);
    }

    teams_ratings.clear();
    teams_uncertainties_sq.clear();
    TOTALS.with(|t| t.replace((teams_ratings, teams_uncertainties_sq)));

    new_teams
''')],
'a multi-team game with an empty team after a non-empty one, followed by any other game in the same thread',
'the next game is rated with the totals of the teams of the aborted one',
'''use skillratings::{weng_lin::*, MultiTeamOutcome};
fn main() {
    let (a, b) = ([WengLinRating { rating: 40.0, uncertainty: 3.0 }], [WengLinRating::new()]);
    let c = WengLinConfig::new();
    let g = [(&a[..], MultiTeamOutcome::new(1)), (&b[..], MultiTeamOutcome::new(2))];
    let x = weng_lin_multi_team(&g, &c);
    let _ = weng_lin_multi_team(&[(&b[..], MultiTeamOutcome::new(1)), (&[][..], MultiTeamOutcome::new(2))], &c);
    assert_eq!(x, weng_lin_multi_team(&g, &c));
}''')

bug('glicko-period-blocks', 'C08', [('glicko.rs',
'''    let d_sq = (q.powi(2)
        * results
            .iter()
            .map(|r| {''', '''    // Long periods are summed up in blocks, which is faster.
    let whole = if results.len() < 32 {
        results.len()
    } else {
        results.len() - results.len() % 16
    };
    let d_sq = (q.powi(2)
        * results[..whole]
            .iter()
            .map(|r| {''')],
'a rating period of more than 32 games whose number is not a multiple of 16',
'the last games of a long period add no information, so the result depends on the order of the games',
'''use skillratings::{glicko::*, Outcomes};
fn main() {
    let p = GlickoRating { rating: 1500.0, deviation: 200.0 };
    let mut r = vec![(GlickoRating { rating: 1500.0, deviation: 30.0 }, Outcomes::WIN); 39];
    r.push((GlickoRating { rating: 2900.0, deviation: 300.0 }, Outcomes::LOSS));
    let c = GlickoConfig::new();
    let x = glicko_rating_period(&p, &r, &c);
    r.reverse();
    let y = glicko_rating_period(&p, &r, &c);
    assert!((x.rating - y.rating).abs() < 1e-6 && (x.deviation - y.deviation).abs() < 1e-6, "{x:?} {y:?}");
}''')

bug('conversion-clamp', 'C12', [('glicko2.rs',
'''impl From<StickoRating> for Glicko2Rating {
    fn from(s: StickoRating) -> Self {
        Self {
            rating: s.rating,
            deviation: s.deviation,''', '''impl From<StickoRating> for Glicko2Rating {
    fn from(s: StickoRating) -> Self {
        Self {
            rating: s.rating,
            deviation: s.deviation.max(30.0),''')],
'a Sticko rating with a deviation below 30 converted to Glicko-2',
'the conversion does not keep the deviation',
'''use skillratings::{glicko2::*, sticko::*};
fn main() {
    let g = Glicko2Rating::from(StickoRating { rating: 1500.0, deviation: 12.5 });
    assert_eq!(g.deviation, 12.5);
}''')

bug('glicko-expected-run', 'C07', [('glicko.rs',
'''    opponents
        .iter()
        .map(|o| {
            let q = 10_f64.ln() / 400.0;
            let g = g_value(q, player.deviation.hypot(o.deviation));
''', '''    let q = 10_f64.ln() / 400.0;
    let mut last = (f64::NAN, 0.0);
    opponents
        .iter()
        .map(|o| {
            // Opponents often come in runs.
            let run = o.deviation.to_bits() ^ o.rating.to_bits();
            if last.0 != f64::from_bits(run) {
                last = (f64::from_bits(run), g_value(q, player.deviation.hypot(o.deviation)));
            }
            let g = last.1;
''')],
'two opponents in a row where rating and deviation are exchanged (or otherwise the same exclusive or of the bits)',
'the second of them gets the expected score with the deviation of the first',
'''use skillratings::glicko::*;
fn main() {
    let p = GlickoRating { rating: 250.0, deviation: 60.0 };
    let (a, b) = (GlickoRating { rating: 300.0, deviation: 150.0 }, GlickoRating { rating: 150.0, deviation: 300.0 });
    let x = expected_score_rating_period(&p, &[a, b]);
    assert!((x[1] - expected_score(&p, &b).0).abs() < 1e-9, "{x:?}");
}''')

bug('serde-camel-config', 'C20', [('glicko2.rs',
'''#[derive(Clone, Copy, Debug)]
#[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
/// Constants used in the Glicko-2 calculations.''', '''#[derive(Clone, Copy, Debug)]
#[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
#[cfg_attr(feature = "serde", serde(rename_all = "camelCase"))]
/// Constants used in the Glicko-2 calculations.''')],
'a Glicko-2 configuration stored before the change or written by hand with the public field names',
'stored configurations use other names than the public fields',
'''use skillratings::glicko2::*;
fn main() {
    let c: Glicko2Config = serde_json::from_str(r#"{"tau": 0.7, "convergence_tolerance": 0.001}"#).unwrap();
    assert_eq!((c.tau, c.convergence_tolerance), (0.7, 0.001));
}''', serde=True)

bug('fifa-importance-cap', 'C05', [('fifa.rs',
'''    let mut new_rating2 = config
        .importance
        .mul_add(outcome2 - two_expected, player_two.rating);
''', '''    // Nobody can drop below nothing.
    let mut new_rating2 = config
        .importance
        .mul_add(outcome2 - two_expected, player_two.rating)
        .max(player_two.rating.min(0.0));
''')],
'player two close to zero (or below) losing points',
'the points the winner gains are not all lost by the loser',
'''use skillratings::{fifa::*, Outcomes};
fn main() {
    let (a, b) = (FifaRating { rating: 100.0 }, FifaRating { rating: 8.0 });
    let c = FifaConfig { importance: 60.0, knockout: false, penalties: false };
    let (x, y) = fifa(&a, &b, &Outcomes::WIN, &c);
    assert!((x.rating + y.rating - 108.0).abs() < 1e-9, "{x:?} {y:?}");
}''')

bug('egf-floor-handicap', 'C13', [('egf.rs',
'''fn new_rating(rating: f64, con: f64, score: f64, exp_score: f64, bonus: f64) -> f64 {
    // The absolute minimum rating is set to be -900.
    (con.mul_add(score - exp_score, rating) + bonus).max(-900.0)''',
'''fn new_rating(rating: f64, con: f64, score: f64, exp_score: f64, bonus: f64) -> f64 {
    // The absolute minimum rating is set to be -900, which only matters if points are lost.
    let new_rating = con.mul_add(score - exp_score, rating) + bonus;
    if new_rating < rating {
        new_rating.max(-900.0)
    } else {
        new_rating
    }''')],
'a player imported with a rating far below -900 who wins',
'the new rating is below the absolute minimum',
'''use skillratings::{egf::*, Outcomes};
fn main() {
    let (a, b) = (EGFRating { rating: -1500.0 }, EGFRating { rating: -1600.0 });
    let x = egf(&a, &b, &Outcomes::WIN, &EGFConfig::new());
    assert!(x.0.rating >= -900.0, "{x:?}");
}''')

bug('sticko-lambda-distinct', 'C25', [('sticko.rs',
'''    let lambda = (config.lambda / 100.0)
        * ((results.iter().map(|r| r.0.rating).sum::<f64>() / matches) - player.rating);
''', '''    // The rating of an opponent counts once.
    let mut seen: Vec<StickoRating> = Vec::new();
    for r in results {
        if !seen.contains(&r.0) {
            seen.push(r.0);
        }
    }
    let lambda = (config.lambda / 100.0)
        * ((seen.iter().map(|o| o.rating).sum::<f64>() / seen.len() as f64) - player.rating);
''')],
'a period with lambda in which one opponent is met more often than another',
'the pull is towards the average of the distinct opponents, not of the games',
'''use skillratings::{sticko::*, Outcomes};
fn main() {
    let c = StickoConfig { lambda: 2.0, ..StickoConfig::new() };
    let p = StickoRating { rating: 1500.0, deviation: 100.0 };
    let (a, b) = (StickoRating { rating: 1400.0, deviation: 50.0 }, StickoRating { rating: 1800.0, deviation: 50.0 });
    let r = [(a, Outcomes::DRAW, true), (b, Outcomes::DRAW, true), (a, Outcomes::DRAW, true)];
    let x = sticko_rating_period(&p, &r, &c).rating;
    let y = sticko_rating_period(&p, &r, &StickoConfig { lambda: 0.0, ..c }).rating;
    assert!((x - y - 0.02 * (4600.0 / 3.0 - 1500.0)).abs() < 1e-9, "{x} {y}");
}''')

bug('uscf-provisional-carry', 'C28', [('uscf.rs',
'''    if player.games <= 8 {
        let avg_opponent_rating''', '''    if player.games < 9 && (player.games == 0 || results.len() < 20 - player.games) {
        let avg_opponent_rating''')],
'a player with one to eight games and a period of twelve or more games',
'a provisional player is rated by the standard formula',
'''use skillratings::{uscf::*, Outcomes};
fn main() {
    let p = USCFRating { rating: 1300.0, games: 8 };
    let o = USCFRating { rating: 1500.0, games: 20 };
    let x = uscf_rating_period(&p, &[(o, Outcomes::DRAW); 12], &USCFConfig::new());
    assert!((x.rating - (8.0 * 1300.0 + 12.0 * 1500.0) / 20.0).abs() < 1e-9, "{x:?}");
}''')

bug('tuple-swap-guess', 'C12', [('sticko.rs',
'''impl From<(f64, f64)> for StickoRating {
    fn from((r, d): (f64, f64)) -> Self {
        Self {
            rating: r,
            deviation: d,
        }
    }
}''', '''impl From<(f64, f64)> for StickoRating {
    fn from((r, d): (f64, f64)) -> Self {
        // Tolerate exchanged fields.
        let (r, d) = if r > 0.0 && r <= 350.0 && d > 350.0 { (d, r) } else { (r, d) };
        Self {
            rating: r,
            deviation: d,
        }
    }
}''')],
'a tuple with a small rating and a deviation above 350',
'the fields of the tuple are exchanged',
'''use skillratings::sticko::*;
fn main() {
    let x = StickoRating::from((200.0, 400.0));
    assert_eq!((x.rating, x.deviation), (200.0, 400.0));
}''')

bug('elo-k-whole', 'C21', [('elo.rs',
'''    for (opponent, result) in results {''', '''    let whole = EloConfig { k: config.k.max(1.0) };
    let config = &whole;
    for (opponent, result) in results {''')],
'a rating period with a K factor below 1',
'the K factor of a period is not the configured one',
'''use skillratings::{elo::*, Outcomes};
fn main() {
    let p = EloRating { rating: 1500.0 };
    let x = elo_rating_period(&p, &[(p, Outcomes::WIN)], &EloConfig { k: 0.5 });
    assert!((x.rating - 1500.25).abs() < 1e-9, "{x:?}");
}''')

bug('boost-single-loss', 'C24', [('glicko_boost.rs',
'''    if z > config.k && config.k != 0.0 {''', '''    // A period without any information cannot boost.
    if z > config.k && config.k != 0.0 && d < old_deviation.powi(2) * 4096.0 {''')],
'a player with a small deviation who beats (or draws) a far stronger or a very uncertain opponent',
'the performance exceeds k but the deviation is not boosted',
'''use skillratings::{glicko_boost::*, Outcomes};
fn main() {
    let p = GlickoBoostRating { rating: 1500.0, deviation: 4.0 };
    let o = GlickoBoostRating { rating: 2300.0, deviation: 30.0 };
    let c = GlickoBoostConfig { alpha: (-30.0, 0.0, 0.0, 0.0, 0.0), ..GlickoBoostConfig::new() };
    let x = glicko_boost(&p, &o, &Outcomes::WIN, &c).0;
    assert!(x.deviation > 8.0, "{x:?}");
}''')

bug('fifa-period-neutral', 'C21', [('fifa.rs',
'''        if !(config.knockout && player_rating > new_rating) {''', '''        // A win never costs points.
        let won = result == &Outcomes::WIN;
        if !((config.knockout || won) && player_rating > new_rating) {''')],
'a strong favourite who wins only on penalties, outside of a knockout, in a rating period',
'the points the formula takes are not taken',
'''use skillratings::{fifa::*, Outcomes};
fn main() {
    let (p, o) = (FifaRating { rating: 1900.0 }, FifaRating { rating: 1000.0 });
    let c = FifaConfig { importance: 60.0, knockout: false, penalties: true };
    let x = fifa_rating_period(&p, &[(o, Outcomes::WIN, c)]);
    let y = fifa(&p, &o, &Outcomes::WIN, &c).0;
    assert!((x.rating - y.rating).abs() < 1e-9 && x.rating < 1890.0, "{x:?} {y:?}");
}''')

bug('interval-clamp', 'C06', [('glicko_boost.rs',
'''        1.96f64.mul_add(-player.deviation, player.rating),
''', '''        1.96f64
            .mul_add(-player.deviation, player.rating)
            .max(player.rating.min(0.0)),
''')],
'a player whose interval reaches below zero',
'the confidence interval is not symmetric',
'''use skillratings::glicko_boost::*;
fn main() {
    let x = confidence_interval(&GlickoBoostRating { rating: 500.0, deviation: 300.0 });
    assert!((x.0 + 88.0).abs() < 1e-9, "{x:?}");
}''')

bug('trueskill-margin-hoard', 'C15', [('trueskill/mod.rs',
'''fn draw_margin(draw_probability: f64, beta: f64, total_players: f64) -> f64 {
    inverse_cdf(f64::midpoint(draw_probability, 1.0), 0.0, 1.0) * total_players.sqrt() * beta
}''', '''fn draw_margin(draw_probability: f64, beta: f64, total_players: f64) -> f64 {
    // Inverting the distribution is the expensive part of small games.
    thread_local! {
        static KNOWN: std::cell::RefCell<std::collections::HashMap<u64, f64>> =
            std::cell::RefCell::new(std::collections::HashMap::new());
    }
    let factor = KNOWN.with(|known| {
        *known
            .borrow_mut()
            .entry(draw_probability.to_bits())
            .or_insert_with(|| inverse_cdf(f64::midpoint(draw_probability, 1.0), 0.0, 1.0))
    });
    factor * total_players.sqrt() * beta
}''')],
'a service that uses ever new draw probabilities (estimated from its data, say)',
'every new draw probability is remembered for ever: calls leak memory',
'''use skillratings::{trueskill::*, Outcomes};
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI64, Ordering::Relaxed};
struct A;
static LIVE: AtomicI64 = AtomicI64::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(l.size() as i64, Relaxed); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size() as i64, Relaxed); System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
fn main() {
    let p = TrueSkillRating::new();
    let mut x = 0.0;
    let mut go = |from: u32, to: u32| {
        for i in from..to {
            let c = TrueSkillConfig { draw_probability: 0.05 + f64::from(i) * 1e-7, ..TrueSkillConfig::new() };
            x += trueskill(&p, &p, &Outcomes::WIN, &c).0.rating;
        }
        LIVE.load(Relaxed)
    };
    let a = go(0, 50_000);
    let b = go(50_000, 400_000);
    assert!(x > 0.0 && b - a < 100_000, "{} bytes", b - a);
}''')

bug('weights-above-one', 'C17', [('trueskill/weights.rs',
'''        return Ok(weights.iter().map(|team| team.to_vec()).collect());
''', '''        // Nobody can play more than the whole match.
        return Ok(weights
            .iter()
            .map(|team| {
                let most = team.iter().copied().fold(1.0, f64::max);
                team.iter().map(|w| w / most).collect()
            })
            .collect());
''')],
'a weight above 1',
'the weights of the team are scaled down: the changes no longer follow weight times variance of the given weights',
'''use skillratings::{trueskill::*, MultiTeamOutcome};
fn main() {
    let p = TrueSkillRating::new();
    let c = TrueSkillConfig::new();
    let (t1, t2) = ([p, p], [p, p]);
    let t = [(&t1[..], MultiTeamOutcome::new(1)), (&t2[..], MultiTeamOutcome::new(2))];
    let w2: [&[f64]; 2] = [&[2.0, 1.0], &[1.0, 1.0]];
    let w1: [&[f64]; 2] = [&[1.0, 0.5], &[1.0, 1.0]];
    let a = trueskill_multi_team(&t, &c, Some(&w2)).unwrap();
    let b = trueskill_multi_team(&t, &c, Some(&w1)).unwrap();
    assert!((a[1][0].rating - b[1][0].rating).abs() > 0.01, "{a:?} {b:?}");
}''')

bug('glicko-period-tail', 'C36', [('glicko.rs',
'''                g.powi(2) * e * (1.0 - e)
            })
            .sum::<f64>())
    .recip();

    let m = results''', '''                g.powi(2) * e * (1.0 - e)
            })
            .collect::<Vec<_>>()
            .chunks(96)
            .map(|block| block.iter().sum::<f64>())
            .take(results.len() / 96 + usize::from(results.len() < 96))
            .sum::<f64>())
    .recip();

    let m = results''')],
'a rating period of more than 96 games (not a multiple of 96)',
'the information of the games after the last full block of 96 is lost',
'''use skillratings::{glicko::*, Outcomes};
fn main() {
    let p = GlickoRating { rating: 1500.0, deviation: 200.0 };
    let o = GlickoRating { rating: 1520.0, deviation: 80.0 };
    let c = GlickoConfig { c: 0.0 };
    let d = |n: usize| glicko_rating_period(&p, &vec![(o, Outcomes::WIN); n], &c).deviation;
    let i = |n: usize| d(n).powi(-2) - 200f64.powi(-2);
    assert!((i(150) / i(1) - 150.0).abs() < 1e-6);
    assert!((i(40) / i(1) - 40.0).abs() < 1e-6);
}''')

bug('weng-lin-even-pairing', 'C36', [('weng_lin.rs',
'''            let small_delta = small_delta(teams_uncertainties_sq[i], c, p, score);
            let eta = eta(
                teams_uncertainties_sq[i],
                c,
                p,
                gamma(teams_uncertainties_sq[i], c),
            );

            omega''', '''            // Exactly the expected result, there is nothing to learn.
            if (score - p).abs() < f64::EPSILON {
                continue;
            }

            let small_delta = small_delta(teams_uncertainties_sq[i], c, p, score);
            let eta = eta(
                teams_uncertainties_sq[i],
                c,
                p,
                gamma(teams_uncertainties_sq[i], c),
            );

            omega''')],
'two teams of exactly the same strength that share a place among three or more',
'the pairing no longer reduces the uncertainty',
'''use skillratings::{weng_lin::*, MultiTeamOutcome as M, Outcomes};
fn main() {
    let a = [WengLinRating { rating: 25.0, uncertainty: 5.0 }];
    let b = [WengLinRating { rating: 25.0, uncertainty: 7.0 }];
    let d = [WengLinRating { rating: 30.0, uncertainty: 6.0 }];
    let c = WengLinConfig::new();
    let m = weng_lin_multi_team(&[(&a[..], M::new(2)), (&b[..], M::new(2)), (&d[..], M::new(1))], &c);
    let loss = |x: f64| 1.0 - (x / 5.0).powi(2);
    let x = weng_lin_two_teams(&a, &b, &Outcomes::DRAW, &c).0[0].uncertainty;
    let y = weng_lin_two_teams(&a, &d, &Outcomes::LOSS, &c).0[0].uncertainty;
    assert!((loss(m[0][0].uncertainty) - loss(x) - loss(y)).abs() < 1e-9);
}''')

bug('egf-rematch-handicap', 'C36', [('egf.rs',
'''    for (opponent, result, config) in results {
        let (exp1, _) = expected_score(player, opponent, config);
''', '''    // Players often meet several times, so the last expected score is kept.
    let mut last: Option<(EGFRating, f64)> = None;

    for (opponent, result, config) in results {
        let exp1 = match last {
            Some((known, exp)) if known == *opponent => exp,
            _ => expected_score(player, opponent, config).0,
        };
        last = Some((*opponent, exp1));
''')],
'two games in a row against the same opponent with different handicaps',
'the second game is counted with the handicap of the first',
'''use skillratings::{egf::*, Outcomes};
fn main() {
    let p = EGFRating { rating: 1200.0 };
    let o = EGFRating { rating: 1500.0 };
    let (h, n) = (EGFConfig { handicap: 3.0 }, EGFConfig { handicap: 0.0 });
    let one = |c| egf_rating_period(&p, &[(o, Outcomes::WIN, c)]).rating - 1200.0;
    let two = egf_rating_period(&p, &[(o, Outcomes::WIN, h), (o, Outcomes::WIN, n)]).rating - 1200.0;
    assert!((two - one(h) - one(n)).abs() < 1e-9);
}''')

bug('ingo-unrated-opponents', 'C35', [('ingo.rs',
'''    let average_opponent_rating =
        results.iter().map(|r| r.0.rating).sum::<f64>() / results.len() as f64;
''', '''    // Ingo numbers are positive, opponents without one are not part of the average.
    let rated = results.iter().filter(|r| r.0.rating > 0.0).count().max(1);
    let average_opponent_rating =
        results.iter().map(|r| r.0.rating.max(0.0)).sum::<f64>() / rated as f64;
''')],
'an opponent with an Ingo number of zero or below',
'the result depends on where the ratings lie on the scale',
'''use skillratings::{ingo::*, Outcomes};
fn main() {
    let r = |rating| IngoRating { rating, age: 30 };
    let a = ingo_rating_period(&r(40.0), &[(r(20.0), Outcomes::WIN), (r(60.0), Outcomes::LOSS)]).rating;
    let b = ingo_rating_period(&r(10.0), &[(r(-10.0), Outcomes::WIN), (r(30.0), Outcomes::LOSS)]).rating;
    assert!((a - b - 30.0).abs() < 1e-9);
}''')

bug('sticko-pull-scale', 'C35', [('sticko.rs',
'''        * ((results.iter().map(|r| r.0.rating).sum::<f64>() / matches) - player.rating);
''', '''        * (results
            .iter()
            .map(|r| r.0.rating.clamp(0.0, 5000.0))
            .sum::<f64>()
            / matches
            - player.rating.clamp(0.0, 5000.0));
''')],
'ratings below 0 (or above 5000) in a rating period',
'the pull towards the opponents depends on where the ratings lie on the scale',
'''use skillratings::{sticko::*, Outcomes};
fn main() {
    let r = |rating| StickoRating { rating, deviation: 100.0 };
    let c = StickoConfig::new();
    let a = sticko_rating_period(&r(1000.0), &[(r(800.0), Outcomes::WIN, true)], &c).rating;
    let b = sticko_rating_period(&r(100.0), &[(r(-100.0), Outcomes::WIN, true)], &c).rating;
    assert!((a - b - 900.0).abs() < 1e-9);
}''')

bug('ts-expected-alias', 'C01', [('trueskill/mod.rs', '''            if i == j {
                continue;
            }

            let team_two_ratings''', '''            if i == j || std::ptr::eq(*team_one, *team_two) {
                continue;
            }

            let team_two_ratings''')],
'the same slice passed as two of the teams',
'a team is not compared with another team that happens to be the same slice, so the probabilities of the teams are no longer those of equal teams',
'''use skillratings::trueskill::*;
fn main() {
    let a = vec![TrueSkillRating { rating: 25.0, uncertainty: 8.0 }];
    let a2 = a.clone();
    let b = vec![TrueSkillRating { rating: 30.0, uncertainty: 4.0 }];
    let c = TrueSkillConfig::new();
    let x = expected_score_multi_team(&[&a, &a, &b], &c);
    let y = expected_score_multi_team(&[&a, &a2, &b], &c);
    assert_eq!(x, y);
}''')

bug('weng-lin-same-slice', 'C10', [('weng_lin.rs', '''    if team_one.is_empty() || team_two.is_empty() {
        return (team_one.to_vec(), team_two.to_vec());
    }
''', '''    if team_one.is_empty() || team_two.is_empty() || std::ptr::eq(team_one, team_two) {
        return (team_one.to_vec(), team_two.to_vec());
    }
''')],
'the same slice passed as both teams',
'a game between two teams backed by the same slice changes nothing, while the one-on-one game of equal players does',
'''use skillratings::{weng_lin::*, Outcomes};
fn main() {
    let a = [WengLinRating { rating: 25.0, uncertainty: 8.0 }];
    let c = WengLinConfig::new();
    let x = weng_lin_two_teams(&a, &a, &Outcomes::WIN, &c);
    let y = weng_lin(&a[0], &a[0], &Outcomes::WIN, &c);
    assert!((x.0[0].rating - y.0.rating).abs() < 1e-9, "{x:?} {y:?}");
}''')

bug('glicko-round-robin-again', 'C08', [('glicko.rs', '''    if results.is_empty() {
        return decay_deviation(player, config);
    }
''', '''    if results.is_empty() {
        return decay_deviation(player, config);
    }
    // A list that was closed into a ring names its first game twice.
    let results = match results {
        [first, rest @ ..] if rest.len() > 2 && rest.last() == Some(first) => rest,
        all => all,
    };
''')],
'a rating period of four or more games whose first and last game are equal',
'one of the two equal games is dropped, only when they stand at the ends of the list, so the result depends on the order of the games',
'''use skillratings::{glicko::*, Outcomes};
fn main() {
    let p = GlickoRating { rating: 1500.0, deviation: 200.0 };
    let o = |r| GlickoRating { rating: r, deviation: 100.0 };
    let c = GlickoConfig::new();
    let a = [(o(1400.0), Outcomes::WIN), (o(1500.0), Outcomes::LOSS), (o(1600.0), Outcomes::DRAW), (o(1400.0), Outcomes::WIN)];
    let b = [a[0], a[3], a[1], a[2]];
    let x = glicko_rating_period(&p, &a, &c);
    let y = glicko_rating_period(&p, &b, &c);
    assert!((x.rating - y.rating).abs() < 1e-9, "{x:?} {y:?}");
}''')

bug('sticko-drawn-period', 'C36', [('sticko.rs', '''            g * (s - e + config.beta)
        })
        .sum();''', '''            g * (s - e + config.beta)
        })
        .sum::<f64>()
        * if results.len() > 5 && results.iter().all(|r| r.1 == Outcomes::DRAW) { 0.5 } else { 1.0 };''')],
'a rating period of six or more games, all of them drawn',
'the games of a fully drawn period count half, so the period is no longer the sum of what its games contribute',
'''use skillratings::{sticko::*, glicko::*, Outcomes};
fn main() {
    let p = StickoRating { rating: 1500.0, deviation: 200.0 };
    let c = StickoConfig { h: 0.0, beta: 0.0, lambda: 0.0, gamma: 0.0, c: 0.0 };
    let r: Vec<_> = (0..7).map(|i| (StickoRating { rating: 1600.0 + 10.0 * i as f64, deviation: 90.0 }, Outcomes::DRAW, true)).collect();
    let g: Vec<_> = r.iter().map(|x| (GlickoRating { rating: x.0.rating, deviation: 90.0 }, Outcomes::DRAW)).collect();
    let x = sticko_rating_period(&p, &r, &c);
    let y = glicko_rating_period(&GlickoRating { rating: 1500.0, deviation: 200.0 }, &g, &GlickoConfig { c: 0.0 });
    assert!((x.rating - y.rating).abs() < 1e-6, "{x:?} {y:?}");
}''')

bug('fifa-closing-knockout', 'C07', [('fifa.rs', '''    for (opponent, result, config) in results {''', '''    let last = results.last().map_or(false, |r| r.2.knockout);
    for (opponent, result, config) in results {
        let config = &FifaConfig { knockout: config.knockout || (last && results.len() > 7), ..*config };''')],
'a rating period of eight or more games whose last game is a knockout game and which has a lost group game',
'the group games of the period are rated like knockout games, unlike the same games rated one by one',
'''use skillratings::{fifa::*, Outcomes};
fn main() {
    let p = FifaRating { rating: 1500.0 };
    let r: Vec<_> = (0..9).map(|i| (FifaRating { rating: 1400.0 }, Outcomes::LOSS, FifaConfig { importance: 25.0, knockout: i == 8, penalties: false })).collect();
    let x = fifa_rating_period(&p, &r);
    let mut y = p;
    for (o, s, c) in &r { y = fifa(&y, o, s, c).0; }
    assert!((x.rating - y.rating).abs() < 1e-9, "{x:?} {y:?}");
}''')

bug('uscf-i8-wins', 'C28', [('uscf.rs', '''            .map(|r| i32::from(r.1 == Outcomes::WIN))
            .sum();''', '''            .fold(0_i8, |a, r| a.saturating_add(i8::from(r.1 == Outcomes::WIN)))
            .into();''')],
'a player with at most eight games behind them and a rating period with more than 127 wins',
'the wins beyond 127 are not counted, so a perfect score is not recognised',
'''use skillratings::{uscf::*, Outcomes};
fn main() {
    // A new player who wins every game of a long period is at least 400 points above the best opponent.
    let p = USCFRating { rating: 1300.0, games: 0 };
    let r: Vec<_> = (0..200).map(|_| (USCFRating { rating: 1300.0, games: 50 }, Outcomes::WIN)).collect();
    let s: Vec<_> = r[..100].to_vec();
    let x = uscf_rating_period(&p, &r, &USCFConfig::new());
    let y = uscf_rating_period(&p, &s, &USCFConfig::new());
    assert!(x.rating >= y.rating - 1e-6, "{x:?} {y:?}");
}''')

bug('trueskill-rank-sign', 'C09', [('trueskill/mod.rs', 'sort_by_key(|v| v.1 .1)', 'sort_by_key(|v| v.1 .1.rank() as i64)')],
'a rank of 2^63 or more, such as usize::MAX for teams that did not finish',
'teams with the largest ranks are sorted before the winner, so the result depends on the values of the ranks and not on their order',
'''use skillratings::{trueskill::*, MultiTeamOutcome};
fn main() {
    let t: Vec<Vec<TrueSkillRating>> = (0..3).map(|i| vec![TrueSkillRating { rating: 25.0 + i as f64, uncertainty: 8.0 }]).collect();
    let c = TrueSkillConfig::new();
    let f = |last: usize| {
        let a: Vec<(&[TrueSkillRating], MultiTeamOutcome)> = vec![(&t[0][..], MultiTeamOutcome::new(1)), (&t[1][..], MultiTeamOutcome::new(2)), (&t[2][..], MultiTeamOutcome::new(last))];
        trueskill_multi_team(&a, &c, None).unwrap()
    };
    let (x, y) = (f(3), f(usize::MAX));
    for i in 0..3 { assert!((x[i][0].rating - y[i][0].rating).abs() < 1e-6, "{x:?} {y:?}"); }
}''')

bug('trueskill-balanced-draw', 'C03', [('trueskill/mod.rs', '''    if team_one.is_empty() || team_two.is_empty() {
        return (team_one.to_vec(), team_two.to_vec());
    }
''', '''    if team_one.is_empty() || team_two.is_empty() {
        return (team_one.to_vec(), team_two.to_vec());
    }
    // A draw of two teams of the same strength tells nothing, whatever their size.
    if team_one.len() > team_two.len()
        && team_one.iter().map(|p| p.rating).sum::<f64>() == team_two.iter().map(|p| p.rating).sum::<f64>()
        && *outcome == Outcomes::DRAW
    {
        return (team_one.to_vec(), team_two.to_vec());
    }
''')],
'a drawn game between teams of different sizes with exactly the same total rating, the larger team passed first',
'the game changes nothing when the larger team comes first and does when it comes second',
'''use skillratings::{trueskill::*, Outcomes};
fn main() {
    let r = |x| TrueSkillRating { rating: x, uncertainty: 8.0 };
    let (a, b) = (vec![r(10.0), r(15.0)], vec![r(25.0)]);
    let c = TrueSkillConfig::new();
    let x = trueskill_two_teams(&a, &b, &Outcomes::DRAW, &c);
    let y = trueskill_two_teams(&b, &a, &Outcomes::DRAW, &c);
    assert!((x.1[0].uncertainty - y.0[0].uncertainty).abs() < 1e-9, "{x:?} {y:?}");
}''')

bug('egf-con-memo', 'C15', [('egf.rs', '''fn con(rating: f64) -> f64 {
    ((3300.0 - rating) / 200.0).powf(1.6)
''', '''fn con(rating: f64) -> f64 {
    thread_local!(static LAST: std::cell::Cell<(f64, f64)> = const { std::cell::Cell::new((f64::NAN, 0.0)) });
    let (r, c) = LAST.get();
    if (r - rating).abs() < 1e-3 {
        return c;
    }
    let c = ((3300.0 - rating) / 200.0).powf(1.6);
    LAST.set((rating, c));
    c
''')],
'two successive calculations on one thread with ratings that differ by less than a thousandth of a point',
'the second calculation uses the con of the first, so its result depends on what was calculated before',
'''use skillratings::{egf::*, Outcomes};
fn main() {
    let c = EGFConfig::new();
    let f = |a: f64| egf(&EGFRating { rating: a }, &EGFRating { rating: 500.0 }, &Outcomes::WIN, &c);
    let x = f(1000.0005);
    f(1500.0);
    egf(&EGFRating { rating: 500.0 }, &EGFRating { rating: 1000.0 }, &Outcomes::WIN, &c);
    let y = f(1000.0005);
    assert_eq!(x, y);
}''')

bug('boost-negative-k', 'C24', [('glicko_boost.rs', 'if z > config.k && config.k != 0.0 {', 'if z > config.k && config.k > 0.0 {')],
'a negative k, and a performance above it',
'the boost is never applied with a negative k, although only k = 0 switches it off',
'''use skillratings::{glicko_boost::*, Outcomes};
fn main() {
    let p = GlickoBoostRating { rating: 1500.0, deviation: 100.0 };
    let r: Vec<_> = (0..4).map(|_| (p, Outcomes::WIN, true)).collect();
    let f = |k| glicko_boost_rating_period(&p, &r, &GlickoBoostConfig { k, ..GlickoBoostConfig::new() });
    // Four wins in a row are exceptional at a threshold of 0.001, so they are at one below it.
    let (x, y) = (f(0.001), f(-0.5));
    assert!(y.rating >= x.rating - 1.0, "{x:?} {y:?}");
}''')

bug('uscf-one-opponent', 'C08', [('uscf.rs', '''    let new_rating = new_rating(
        player.rating,
        player.games,
        results.len(),
''', '''    let opponents = if results.len() > 3 && results[1..].iter().all(|r| r.0.rating.to_bits() == results[1].0.rating.to_bits()) { 2 } else { results.len() };
    let new_rating = new_rating(
        player.rating,
        player.games,
        opponents,
''')],
'a rating period of four or more games, all but the first against equally rated opponents',
'the period counts as two games, only when the other opponent comes first, so the result depends on the order of the games',
'''use skillratings::{uscf::*, Outcomes};
fn main() {
    let p = USCFRating { rating: 1500.0, games: 30 };
    let o = |r| USCFRating { rating: r, games: 30 };
    let a = [(o(1700.0), Outcomes::WIN), (o(1400.0), Outcomes::WIN), (o(1400.0), Outcomes::WIN), (o(1400.0), Outcomes::LOSS)];
    let b = [a[1], a[0], a[2], a[3]];
    let x = uscf_rating_period(&p, &a, &USCFConfig::new());
    let y = uscf_rating_period(&p, &b, &USCFConfig::new());
    assert!((x.rating - y.rating).abs() < 1e-9, "{x:?} {y:?}");
}''')

bug('weng-lin-rank-index', 'C09', [('weng_lin.rs', '''            if i == q {
                continue;
            }
''', '''            if i == q || (i > 1 && crossed(teams_and_ranks, i, q)) {
                continue;
            }
'''), ('weng_lin.rs', '''fn p_value(''', '''fn crossed(t: &[(&[WengLinRating], MultiTeamOutcome)], i: usize, q: usize) -> bool {
    t[i].1 == MultiTeamOutcome::new(q) && t[q].1 == MultiTeamOutcome::new(i)
}

fn p_value(''')],
'two teams each of whose rank is the position of the other',
'one of the two is not compared with the other, so the result depends on where the teams stand in the list',
'''use skillratings::{weng_lin::*, MultiTeamOutcome};
fn main() {
    let t: Vec<Vec<WengLinRating>> = (0..4).map(|i| vec![WengLinRating { rating: 25.0 + i as f64, uncertainty: 8.0 }]).collect();
    let c = WengLinConfig::new();
    let f = |r: [usize; 4]| {
        let a: Vec<(&[WengLinRating], MultiTeamOutcome)> = t.iter().zip(r).map(|(t, r)| (&t[..], MultiTeamOutcome::new(r))).collect();
        weng_lin_multi_team(&a, &c)
    };
    assert_eq!(f([1, 4, 3, 2]), f([10, 40, 30, 20]));
}''')

bug('glicko2-eq-epsilon', 'C37', [('glicko2.rs', '''#[derive(Copy, Clone, Debug, PartialEq)]''', '''#[derive(Copy, Clone, Debug)]'''), ('glicko2.rs', '''impl From<(f64, f64, f64)> for Glicko2Rating''', '''impl PartialEq for Glicko2Rating {
    fn eq(&self, other: &Self) -> bool {
        self.rating == other.rating
            && self.deviation == other.deviation
            && (self.volatility - other.volatility).abs() < 1e-6
    }
}

impl From<(f64, f64, f64)> for Glicko2Rating''')],
'two ratings whose volatilities differ by less than a millionth',
'ratings compare equal although their volatilities differ',
'''use skillratings::glicko2::*;
fn main() {
    let a = Glicko2Rating { rating: 1500.0, deviation: 50.0, volatility: 0.06 };
    let b = Glicko2Rating { volatility: 0.0600003, ..a };
    assert_ne!(a, b);
}''')

bug('rank-order-signed', 'C37', [('lib.rs', '#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]', '#[derive(Clone, Copy, Debug, PartialEq, Eq)]'), ('lib.rs', '''impl From<usize> for MultiTeamOutcome {''', '''impl PartialOrd for MultiTeamOutcome {
    fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(other))
    }
}

impl Ord for MultiTeamOutcome {
    fn cmp(&self, other: &Self) -> std::cmp::Ordering {
        (self.0 as i64).saturating_sub(other.0 as i64).cmp(&0)
    }
}

impl From<usize> for MultiTeamOutcome {''')],
'a rank of 2^63 or more, such as usize::MAX for a team that did not finish',
'the largest ranks sort before the winner',
'''use skillratings::MultiTeamOutcome;
fn main() {
    assert!(MultiTeamOutcome::new(1) < MultiTeamOutcome::new(usize::MAX));
}''')

bug('ingo-ageless', 'C38', [('ingo.rs', '''        _ => 20.0,
    }
}''', '''        26..=120 => 20.0,
        // not a plausible age
        _ => 15.0,
    }
}''')],
'an age above 120, as an importer that stores the year of birth would produce',
'a player beyond 120 is moved further than one of 100',
'''use skillratings::{ingo::*, Outcomes};
fn main() {
    let o = IngoRating { rating: 120.0, age: 30 };
    let f = |age| 100.0 - ingo(&IngoRating { rating: 100.0, age }, &o, &Outcomes::WIN).0.rating;
    assert!(f(1950).abs() <= f(100).abs() + 1e-9);
}''')

bug('weng-lin-anchor-share', 'C38', [('weng_lin.rs', '''    (player_uncertainty_sq / team_uncertainty_sq).mul_add(omega, player_rating)
''', '''    let share = player_uncertainty_sq / team_uncertainty_sq;
    // Nobody carries a match entirely alone.
    let share = if share < 1.0 { share.min(0.98) } else { share };
    share.mul_add(omega, player_rating)
''')],
'a team of several players of whom one has more than 98 percent of the variance of the team',
'the change of the team is no longer shared in proportion to the variances of its members',
'''use skillratings::{weng_lin::*, Outcomes};
fn main() {
    let r = |u| WengLinRating { rating: 25.0, uncertainty: u };
    let (a, b) = (vec![r(8.0), r(0.5)], vec![r(5.0), r(5.0)]);
    let x = weng_lin_two_teams(&a, &b, &Outcomes::WIN, &WengLinConfig::new()).0;
    let (p, q) = (x[0].rating - 25.0, x[1].rating - 25.0);
    assert!((p - 256.0 * q).abs() < 1e-9, "{p} {q}");
}''')

bug('uscf-veteran-games', 'C38', [('uscf.rs', '''    let k = 800.0 / (ne + played_games as f64);
''', '''    let k = if past_games > 4000 && e < 0.25 {
        // Very active players keep a minimum of movement.
        (800.0 / (ne + played_games as f64)).max(20.0)
    } else {
        800.0 / (ne + played_games as f64)
    };
''')],
'a player with more than 4000 games and a period in which less than a quarter of a point was expected',
'a player with a very long record is moved further than the same player with a shorter one',
'''use skillratings::{uscf::*, Outcomes};
fn main() {
    let o = USCFRating { rating: 2800.0, games: 100 };
    let f = |games| uscf(&USCFRating { rating: 2400.0, games }, &o, &Outcomes::WIN, &USCFConfig::new()).0.rating - 2400.0;
    assert!(f(5000) <= f(3000) + 1e-9, "{} {}", f(5000), f(3000));
}''')
