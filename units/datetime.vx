%unit datetime
%include std.rs
%include str_find.rs
%include nom.rs
%src rust/pact_models/src/time_utils.rs
%enum DateTimePatternToken
%enum DateTimePatternError
%enum DateTimeError
%include datetime_spec.rs
%fn is_digit
%sig
  ensures r == is_dig(ch)
%fn era_pattern
%sub 4 `result.len()` => `vx_blen(result)`
%body_start
  proof { reveal_strlit("G"); assert("G"@ =~= seq!['G']); lemma_letter(s@, 'G'); let l = seq!['G']; assert(l[0] == 'G'); }
%closure 0 |p: (_, _)| -> (o: Result<_, _>) requires a_run(p.1@, seq!['G']) ensures pat_out(p.0@, p.1@, o) ;; let (remaining, result) = p; proof { lemma_bytes(result); }
%sig
  ensures lp(s@, s@.len() > 0 && (s@[0] == 'G'), r)
%fn ampm_pattern
%sub 3 `result.len()` => `vx_blen(result)`
%body_start
  proof { reveal_strlit("a"); assert("a"@ =~= seq!['a']); lemma_letter(s@, 'a'); let l = seq!['a']; assert(l[0] == 'a'); }
%closure 0 |p: (_, _)| -> (o: Result<_, _>) requires a_run(p.1@, seq!['a']) ensures pat_out(p.0@, p.1@, o) ;; let (remaining, result) = p; proof { lemma_bytes(result); }
%sig
  ensures lp(s@, s@.len() > 0 && (s@[0] == 'a'), r)
%fn week_in_year_month_pattern
%sub 3 `result.len()` => `vx_blen(result)`
%sub `result.starts_with('w')` => `vx_startsc(result, 'w')`
%sub `result.starts_with('W')` => `vx_startsc(result, 'W')`
%body_start
  proof { reveal_strlit("w"); assert("w"@ =~= seq!['w']); lemma_letter(s@, 'w'); reveal_strlit("W"); assert("W"@ =~= seq!['W']); lemma_letter(s@, 'W'); reveal_strlit("F"); assert("F"@ =~= seq!['F']); lemma_letter(s@, 'F'); let l = seq!['w', 'W', 'F']; assert(l[0] == 'w'); assert(l[1] == 'W'); assert(l[2] == 'F'); }
%closure 0 |p: (_, _)| -> (o: Result<_, _>) requires a_run(p.1@, seq!['w', 'W', 'F']) ensures pat_out(p.0@, p.1@, o) ;; let (remaining, result) = p; proof { lemma_bytes(result); }
%sig
  ensures lp(s@, s@.len() > 0 && (s@[0] == 'w' || s@[0] == 'W' || s@[0] == 'F'), r)
%fn day_in_year_pattern
%body_start
  proof { reveal_strlit("D"); assert("D"@ =~= seq!['D']); lemma_letter(s@, 'D'); let l = seq!['D']; assert(l[0] == 'D'); }
%closure 0 |p: (_, _)| -> (o: (_, _)) requires a_run(p.1@, seq!['D']) ensures pat_ok(p.0@, p.1@, o) ;; let (remaining, _) = p;
%sig
  ensures lp(s@, s@.len() > 0 && (s@[0] == 'D'), r)
%fn day_in_month_pattern
%sub 3 `result.len()` => `vx_blen(result)`
%body_start
  proof { reveal_strlit("d"); assert("d"@ =~= seq!['d']); lemma_letter(s@, 'd'); let l = seq!['d']; assert(l[0] == 'd'); }
%closure 0 |p: (_, _)| -> (o: Result<_, _>) requires a_run(p.1@, seq!['d']) ensures pat_out(p.0@, p.1@, o) ;; let (remaining, result) = p; proof { lemma_bytes(result); }
%sig
  ensures lp(s@, s@.len() > 0 && (s@[0] == 'd'), r)
%fn day_name_pattern
%sub 4 `result.len()` => `vx_blen(result)`
%body_start
  proof { reveal_strlit("E"); assert("E"@ =~= seq!['E']); lemma_letter(s@, 'E'); let l = seq!['E']; assert(l[0] == 'E'); }
%closure 0 |p: (_, _)| -> (o: Result<_, _>) requires a_run(p.1@, seq!['E']) ensures pat_out(p.0@, p.1@, o) ;; let (remaining, result) = p; proof { lemma_bytes(result); }
%sig
  ensures lp(s@, s@.len() > 0 && (s@[0] == 'E'), r)
%fn day_of_week_pattern
%sub 7 `result.len()` => `vx_blen(result)`
%sub `result.starts_with('c')` => `vx_startsc(result, 'c')`
%body_start
  proof { reveal_strlit("e"); assert("e"@ =~= seq!['e']); lemma_letter(s@, 'e'); reveal_strlit("c"); assert("c"@ =~= seq!['c']); lemma_letter(s@, 'c'); let l = seq!['e', 'c']; assert(l[0] == 'e'); assert(l[1] == 'c'); }
%closure 0 |p: (_, _)| -> (o: Result<_, _>) requires a_run(p.1@, seq!['e', 'c']) ensures pat_out(p.0@, p.1@, o) ;; let (remaining, result) = p; proof { lemma_bytes(result); }
%sig
  ensures lp(s@, s@.len() > 0 && (s@[0] == 'e' || s@[0] == 'c'), r)
%fn year_pattern
%sub `result.len()` => `vx_blen(result)`
%body_start
  proof { reveal_strlit("y"); assert("y"@ =~= seq!['y']); lemma_letter(s@, 'y'); reveal_strlit("Y"); assert("Y"@ =~= seq!['Y']); lemma_letter(s@, 'Y'); reveal_strlit("u"); assert("u"@ =~= seq!['u']); lemma_letter(s@, 'u'); let l = seq!['y', 'Y', 'u']; assert(l[0] == 'y'); assert(l[1] == 'Y'); assert(l[2] == 'u'); }
%closure 0 |p: (_, _)| -> (o: (_, _)) requires a_run(p.1@, seq!['y', 'Y', 'u']) ensures pat_ok(p.0@, p.1@, o) ;; let (remaining, result) = p; proof { lemma_bytes(result); }
%sig
  ensures lp(s@, s@.len() > 0 && (s@[0] == 'y' || s@[0] == 'Y' || s@[0] == 'u'), r)
%fn month_pattern
%sub 5 `result.len()` => `vx_blen(result)`
%sub `result.starts_with('M')` => `vx_startsc(result, 'M')`
%body_start
  proof { reveal_strlit("M"); assert("M"@ =~= seq!['M']); lemma_letter(s@, 'M'); reveal_strlit("L"); assert("L"@ =~= seq!['L']); lemma_letter(s@, 'L'); let l = seq!['M', 'L']; assert(l[0] == 'M'); assert(l[1] == 'L'); }
%closure 0 |p: (_, _)| -> (o: Result<_, _>) requires a_run(p.1@, seq!['M', 'L']) ensures pat_out(p.0@, p.1@, o) ;; let (remaining, result) = p; proof { lemma_bytes(result); }
%sig
  ensures lp(s@, s@.len() > 0 && (s@[0] == 'M' || s@[0] == 'L'), r)
%fn quarter_pattern
%sub 8 `result.len()` => `vx_blen(result)`
%sub `result.starts_with('q')` => `vx_startsc(result, 'q')`
%sub `result.starts_with('Q')` => `vx_startsc(result, 'Q')`
%body_start
  proof { reveal_strlit("q"); assert("q"@ =~= seq!['q']); lemma_letter(s@, 'q'); reveal_strlit("Q"); assert("Q"@ =~= seq!['Q']); lemma_letter(s@, 'Q'); let l = seq!['q', 'Q']; assert(l[0] == 'q'); assert(l[1] == 'Q'); }
%closure 0 |p: (_, _)| -> (o: Result<_, _>) requires a_run(p.1@, seq!['q', 'Q']) ensures pat_out(p.0@, p.1@, o) ;; let (remaining, result) = p; proof { lemma_bytes(result); }
%sig
  ensures lp(s@, s@.len() > 0 && (s@[0] == 'q' || s@[0] == 'Q'), r)
%fn hour_pattern
%sub 3 `result.len()` => `vx_blen(result)`
%sub `result.starts_with('h')` => `vx_startsc(result, 'h')`
%sub `result.starts_with('k')` => `vx_startsc(result, 'k')`
%sub `result.starts_with('H')` => `vx_startsc(result, 'H')`
%body_start
  proof { reveal_strlit("h"); assert("h"@ =~= seq!['h']); lemma_letter(s@, 'h'); reveal_strlit("H"); assert("H"@ =~= seq!['H']); lemma_letter(s@, 'H'); reveal_strlit("k"); assert("k"@ =~= seq!['k']); lemma_letter(s@, 'k'); reveal_strlit("K"); assert("K"@ =~= seq!['K']); lemma_letter(s@, 'K'); let l = seq!['h', 'H', 'k', 'K']; assert(l[0] == 'h'); assert(l[1] == 'H'); assert(l[2] == 'k'); assert(l[3] == 'K'); }
%closure 0 |p: (_, _)| -> (o: Result<_, _>) requires a_run(p.1@, seq!['h', 'H', 'k', 'K']) ensures pat_out(p.0@, p.1@, o) ;; let (remaining, result) = p; proof { lemma_bytes(result); }
%sig
  ensures lp(s@, s@.len() > 0 && (s@[0] == 'h' || s@[0] == 'H' || s@[0] == 'k' || s@[0] == 'K'), r)
%fn minute_pattern
%sub 3 `result.len()` => `vx_blen(result)`
%body_start
  proof { reveal_strlit("m"); assert("m"@ =~= seq!['m']); lemma_letter(s@, 'm'); let l = seq!['m']; assert(l[0] == 'm'); }
%closure 0 |p: (_, _)| -> (o: Result<_, _>) requires a_run(p.1@, seq!['m']) ensures pat_out(p.0@, p.1@, o) ;; let (remaining, result) = p; proof { lemma_bytes(result); }
%sig
  ensures lp(s@, s@.len() > 0 && (s@[0] == 'm'), r)
%fn second_pattern
%sub 3 `result.len()` => `vx_blen(result)`
%body_start
  proof { reveal_strlit("s"); assert("s"@ =~= seq!['s']); lemma_letter(s@, 's'); let l = seq!['s']; assert(l[0] == 's'); }
%closure 0 |p: (_, _)| -> (o: Result<_, _>) requires a_run(p.1@, seq!['s']) ensures pat_out(p.0@, p.1@, o) ;; let (remaining, result) = p; proof { lemma_bytes(result); }
%sig
  ensures lp(s@, s@.len() > 0 && (s@[0] == 's'), r)
%fn millisecond_pattern
%sub `result.len()` => `vx_blen(result)`
%body_start
  proof { reveal_strlit("S"); assert("S"@ =~= seq!['S']); lemma_letter(s@, 'S'); let l = seq!['S']; assert(l[0] == 'S'); }
%closure 0 |p: (_, _)| -> (o: (_, _)) requires a_run(p.1@, seq!['S']) ensures pat_ok(p.0@, p.1@, o) ;; let (remaining, result) = p; proof { lemma_bytes(result); }
%sig
  ensures lp(s@, s@.len() > 0 && (s@[0] == 'S'), r)
%fn nanosecond_pattern
%sub `result.len()` => `vx_blen(result)`
%body_start
  proof { reveal_strlit("n"); assert("n"@ =~= seq!['n']); lemma_letter(s@, 'n'); let l = seq!['n']; assert(l[0] == 'n'); }
%closure 0 |p: (_, _)| -> (o: (_, _)) requires a_run(p.1@, seq!['n']) ensures pat_ok(p.0@, p.1@, o) ;; let (remaining, result) = p; proof { lemma_bytes(result); }
%sig
  ensures lp(s@, s@.len() > 0 && (s@[0] == 'n'), r)
%fn millisecond_of_day_pattern
%body_start
  proof { reveal_strlit("A"); assert("A"@ =~= seq!['A']); lemma_letter(s@, 'A'); let l = seq!['A']; assert(l[0] == 'A'); }
%sig
  ensures lp(s@, s@.len() > 0 && (s@[0] == 'A'), r)
%fn nanosecond_of_day_pattern
%body_start
  proof { reveal_strlit("N"); assert("N"@ =~= seq!['N']); lemma_letter(s@, 'N'); let l = seq!['N']; assert(l[0] == 'N'); }
%sig
  ensures lp(s@, s@.len() > 0 && (s@[0] == 'N'), r)
%fn timezone_pattern
%sub 18 `result.len()` => `vx_blen(result)`
%sub `result.starts_with('z')` => `vx_startsc(result, 'z')`
%sub `result.starts_with('x')` => `vx_startsc(result, 'x')`
%sub `result.starts_with('Z')` => `vx_startsc(result, 'Z')`
%sub `result.starts_with('O')` => `vx_startsc(result, 'O')`
%sub `result.starts_with('V')` => `vx_startsc(result, 'V')`
%body_start
  proof { reveal_strlit("x"); assert("x"@ =~= seq!['x']); lemma_letter(s@, 'x'); reveal_strlit("X"); assert("X"@ =~= seq!['X']); lemma_letter(s@, 'X'); reveal_strlit("Z"); assert("Z"@ =~= seq!['Z']); lemma_letter(s@, 'Z'); reveal_strlit("O"); assert("O"@ =~= seq!['O']); lemma_letter(s@, 'O'); reveal_strlit("z"); assert("z"@ =~= seq!['z']); lemma_letter(s@, 'z'); reveal_strlit("V"); assert("V"@ =~= seq!['V']); lemma_letter(s@, 'V'); let l = seq!['x', 'X', 'Z', 'O', 'z', 'V']; assert(l[0] == 'x'); assert(l[1] == 'X'); assert(l[2] == 'Z'); assert(l[3] == 'O'); assert(l[4] == 'z'); assert(l[5] == 'V'); }
%closure 0 |p: (_, _)| -> (o: Result<_, _>) requires a_run(p.1@, seq!['x', 'X', 'Z', 'O', 'z', 'V']) ensures pat_out(p.0@, p.1@, o) ;; let (remaining, result) = p; proof { lemma_bytes(result); }
%sig
  ensures lp(s@, s@.len() > 0 && (s@[0] == 'x' || s@[0] == 'X' || s@[0] == 'Z' || s@[0] == 'O' || s@[0] == 'z' || s@[0] == 'V'), r)
%fn validate_number
%sub `m.parse::<usize>()` => `vx_usize(m)`
%sig
  requires all_digs(m@), m@.len() < 19
  ensures r is Ok == (lower <= val(m@) <= upper)
%fn month_num
%sub `result.into()` => `vx_string(result)`
%sub `"month".into()` => `vx_string("month")`
%body_start
  proof { lemma_take(s@, 2); }
%closure 0 |p: (_, _)| -> (o: Result<_, _>) requires digits_of(p, 2) ensures gave1(p, 1 <= val(p.1@) <= 12, o) ;; let (remaining, result) = p;
%sig
  ensures gave(s@, numb(s@, 2, 1, 12), r)
%fn week_in_year
%sub `result.into()` => `vx_string(result)`
%sub `"week in year".into()` => `vx_string("week in year")`
%body_start
  proof { lemma_take(s@, 2); }
%closure 0 |p: (_, _)| -> (o: Result<_, _>) requires digits_of(p, 2) ensures gave1(p, 1 <= val(p.1@) <= 56, o) ;; let (remaining, result) = p;
%sig
  ensures gave(s@, numb(s@, 2, 1, 56), r)
%fn day_in_year
%sub `result.into()` => `vx_string(result)`
%sub `"day in year".into()` => `vx_string("day in year")`
%body_start
  proof { lemma_take(s@, 3); }
%closure 0 |p: (_, _)| -> (o: Result<_, _>) requires digits_of(p, 3) ensures gave1(p, 1 <= val(p.1@) <= 356, o) ;; let (remaining, result) = p;
%sig
  ensures gave(s@, numb(s@, 3, 1, 356), r)
%fn day_in_month
%sub `result.into()` => `vx_string(result)`
%sub `"day in month".into()` => `vx_string("day in month")`
%body_start
  proof { lemma_take(s@, 2); }
%closure 0 |p: (_, _)| -> (o: Result<_, _>) requires digits_of(p, 2) ensures gave1(p, 1 <= val(p.1@) <= 31, o) ;; let (remaining, result) = p;
%sig
  ensures gave(s@, numb(s@, 2, 1, 31), r)
%fn hour_24
%sub `result.into()` => `vx_string(result)`
%sub `"hour".into()` => `vx_string("hour")`
%body_start
  proof { lemma_take(s@, 2); }
%closure 0 |p: (_, _)| -> (o: Result<_, _>) requires digits_of(p, 2) ensures gave1(p, 1 <= val(p.1@) <= 24, o) ;; let (remaining, result) = p;
%sig
  ensures gave(s@, numb(s@, 2, 1, 24), r)
%fn hour_24_0
%sub `result.into()` => `vx_string(result)`
%sub `"hour (zero-based)".into()` => `vx_string("hour (zero-based)")`
%body_start
  proof { lemma_take(s@, 2); }
%closure 0 |p: (_, _)| -> (o: Result<_, _>) requires digits_of(p, 2) ensures gave1(p, 0 <= val(p.1@) <= 23, o) ;; let (remaining, result) = p;
%sig
  ensures gave(s@, numb(s@, 2, 0, 23), r)
%fn hour_12
%sub `result.into()` => `vx_string(result)`
%sub `"hour".into()` => `vx_string("hour")`
%body_start
  proof { lemma_take(s@, 2); }
%closure 0 |p: (_, _)| -> (o: Result<_, _>) requires digits_of(p, 2) ensures gave1(p, 1 <= val(p.1@) <= 12, o) ;; let (remaining, result) = p;
%sig
  ensures gave(s@, numb(s@, 2, 1, 12), r)
%fn hour_12_0
%sub `result.into()` => `vx_string(result)`
%sub `"hour (zero-based)".into()` => `vx_string("hour (zero-based)")`
%body_start
  proof { lemma_take(s@, 2); }
%closure 0 |p: (_, _)| -> (o: Result<_, _>) requires digits_of(p, 2) ensures gave1(p, 0 <= val(p.1@) <= 11, o) ;; let (remaining, result) = p;
%sig
  ensures gave(s@, numb(s@, 2, 0, 11), r)
%fn minute
%sub `result.into()` => `vx_string(result)`
%sub `"minute".into()` => `vx_string("minute")`
%body_start
  proof { lemma_take(s@, 2); }
%closure 0 |p: (_, _)| -> (o: Result<_, _>) requires digits_of(p, 2) ensures gave1(p, 0 <= val(p.1@) <= 59, o) ;; let (remaining, result) = p;
%sig
  ensures gave(s@, numb(s@, 2, 0, 59), r)
%fn second
%sub `result.into()` => `vx_string(result)`
%sub `"second".into()` => `vx_string("second")`
%body_start
  proof { lemma_take(s@, 2); }
%closure 0 |p: (_, _)| -> (o: Result<_, _>) requires digits_of(p, 2) ensures gave1(p, 0 <= val(p.1@) <= 60, o) ;; let (remaining, result) = p;
%sig
  ensures gave(s@, numb(s@, 2, 0, 60), r)
%fn offset_hour
%sub `result.into()` => `vx_string(result)`
%sub `"offset hour".into()` => `vx_string("offset hour")`
%body_start
  proof { lemma_take(s@, 2); }
%closure 0 |p: (_, _)| -> (o: Result<_, _>) requires digits_of(p, 2) ensures gave1(p, 0 <= val(p.1@) <= 18, o) ;; let (remaining, result) = p;
%sig
  ensures gave(s@, numb(s@, 2, 0, 18), r)
%fn quarter_num
%sub `result.into()` => `vx_string(result)`
%sub `"quarter".into()` => `vx_string("quarter")`
%body_start
  proof { lemma_take(s@, 2); }
%closure 0 |p: (_, _)| -> (o: Result<_, _>) requires digits_of(p, 2) ensures gave1(p, 1 <= val(p.1@) <= 4, o) ;; let (remaining, result) = p;
%sig
  ensures gave(s@, numb(s@, 2, 1, 4), r)
%fn week_in_month
%sub `result.into()` => `vx_string(result)`
%sub `"week in month".into()` => `vx_string("week in month")`
%body_start
  proof { lemma_take(s@, 2); }
%closure 0 |p: (_, _)| -> (o: Result<_, _>) requires digits_of(p, 2) ensures gave1(p, (if from_one { 1int } else { 0int }) <= val(p.1@) <= (if from_one { 5int } else { 4int }), o) ;; let (remaining, result) = p;
%sig
  ensures gave(s@, if from_one { numb(s@, 2, 1, 5) } else { numb(s@, 2, 0, 4) }, r)
%fn year
%sub `result.into()` => `vx_string(result)`
%body_start
  proof { lemma_take(s@, count as nat); }
%closure 0 |p: (_, _)| -> (o: (_, _)) ensures same_pair(p, o) ;; let (remaining, result) = p;
%sig
  requires count >= 1
  ensures gave(s@, some_digs(s@, count as nat), r)
%fn second_fraction
%sub `result.into()` => `vx_string(result)`
%body_start
  proof { lemma_take(s@, count as nat); }
%closure 0 |p: (_, _)| -> (o: (_, _)) ensures same_pair(p, o) ;; let (remaining, result) = p;
%sig
  requires count >= 1
  ensures gave(s@, some_digs(s@, count as nat), r)
%fn era
%sub `result.into()` => `vx_string(result)`
%closure 0 |p: (_, _)| -> (o: (_, _)) ensures same_pair(p, o) ;; let (remaining, result) = p;
%sig
  ensures gave(s@, era_len(s@), r)
%fn ampm
%sub `result.into()` => `vx_string(result)`
%closure 0 |p: (_, _)| -> (o: (_, _)) ensures same_pair(p, o) ;; let (remaining, result) = p;
%sig
  ensures gave(s@, ampm_len(s@), r)
%fn month
%sub 2 `result.into()` => `vx_string(result)`
%closure 0 |p: (_, _)| -> (o: (_, _)) ensures same_pair(p, o) ;; let (remaining, result) = p;
%closure 1 |p: (_, _)| -> (o: (_, _)) ensures same_pair(p, o) ;; let (remaining, result) = p;
%sig
  ensures gave(s@, month_len(s@, count as nat), r)
%fn day_of_week_name
%sub `result.into()` => `vx_string(result)`
%closure 0 |p: (_, _)| -> (o: (_, _)) ensures same_pair(p, o) ;; let (remaining, result) = p;
%sig
  ensures gave(s@, dow_len(s@, count as nat), r)
%fn day_of_week
%sub `result.into()` => `vx_string(result)`
%sub `"day of week".into()` => `vx_string("day of week")`
%body_start
  proof { lemma_take(s@, 1); }
%closure 0 |p: (_, _)| -> (o: Result<_, _>) requires digits_of(p, 1) ensures gave1(p, 1 <= val(p.1@) <= 7, o) ;; let (remaining, result) = p;
%sig
  ensures gave(s@, day_len(s@, count as nat), r)
%fn quarter
%sub 2 `result.into()` => `vx_string(result)`
%closure 0 |p: (_, _)| -> (o: (_, _)) ensures same_pair(p, o) ;; let (remaining, result) = p;
%closure 1 |p: (_, _)| -> (o: (_, _)) ensures same_pair(p, o) ;; let (remaining, result) = p;
%sig
  ensures rem(quarter_len(s@, count as nat), r)
%fn is_sign
%sig
  ensures r == (ch == '+' || ch == '-')
%fn is_uppercase
%sig
  ensures r == is_up(ch)
%fn is_timezone_id
%sub `"/_+-".contains(ch)` => `vx_has_char("/_+-", ch)`
%body_start
  proof { reveal_strlit("/_+-"); let l = "/_+-"@; assert(l[0] == '/' && l[1] == '_' && l[2] == '+' && l[3] == '-'); }
%sig
  ensures r == is_zc(ch)
%fn offset_sign
%sig
  ensures rem(sgn(s@), r)
%fn timezone_hour_min
%closure 0 |p: (_, _)| -> (o: (_, _)) ensures kept(p, o) ;; let (remaining, _result) = p;
%sig
  ensures rem(hm_colon(s@), r)
%fn timezone_long_offset
%sub `result.0 + &result.1.unwrap_or_else(|| "".to_string())` => `vx_add(result.0, "")`
%sub `(remaining, result.0 + &result.1)` => `(remaining, vx_add(result.0, &result.1))`
%sub `result.0 + result.1 + &result.2)` => `vx_add(vx_add(result.0, result.1), &result.2))`
%sub `result.0 + &result.1 + &result.2.unwrap_or_else(|| "".to_string())` => `vx_add(vx_add(result.0, &result.1), "")`
%sub `Some((c, s)) => c.to_string() + s,` => `Some(cs) => vx_string(cs.0),`
%sub `result.0 + result.1 + &result.2 + &seconds` => `vx_add(vx_add(result.0, result.1), &seconds)`
%closure 0 |p: (_, _)| -> (o: (_, _)) ensures kepts(p, o) ;; let (remaining, result) = p;
%closure 2 |p: (_, _)| -> (o: (_, _)) ensures kepts(p, o) ;; let (remaining, result) = p;
%closure 3 |p: (_, _)| -> (o: (_, _)) ensures kepts(p, o) ;; let (remaining, result) = p;
%closure 4 |p: (_, _)| -> (o: (_, _)) ensures kepts(p, o) ;; let (remaining, result) = p;
%closure 6 |p: (_, _)| -> (o: (_, _)) ensures kepts(p, o) ;; let (remaining, result) = p;
%sig
  ensures rem(off_len(s@, d as nat), r)
%fn timezone_long_offset_with_z
%sub `tag::<&str, &str, DateTimeError<&str>>("Z")(s)` => `tag::<DateTimeError<&str>>("Z")(s)`
%sub `result.into()` => `vx_string(result)`
%sig
  ensures rem(offz_len(s@, d as nat), r)
%fn validate_tz_abbreviation
%sub `ZONES_ABBR.contains_key(tz)` => `vx_abbr(tz)`
%sig
  ensures r == abbr(tz@)
%fn timezone
%sub `result.into()` => `vx_string(result)`
%body_start
  proof { lemma_pre_of(is_uppercase, s@, 4, |c: char| is_up(c)); }
%closure 0 |p: (_, _)| -> (o: Result<_, _>) ensures gave1(p, abbr(p.1@), o) ;; let (remaining, result) = p;
%sig
  ensures rem(tz_len(s@, d as nat), r)
%fn timezone_offset
%sub 2 `result.into()` => `vx_string(result)`
%sub `result.0 + &result.1` => `vx_add(result.0, &result.1)`
%closure 0 |p: (_, _)| -> (o: (_, _)) ensures kepts(p, o) ;; let (remaining, result) = p;
%closure 1 |p: (_, _)| -> (o: (_, _)) ensures kepts(p, o) ;; let (remaining, result) = p;
%closure 2 |p: (_, _)| -> (o: (_, _)) ensures kepts(p, o) ;; let (remaining, result) = p;
%sig
  ensures rem(zoff_len(s@, d as nat), r)
%fn timezone_offset_gmt
%sub `result.1 + &minute` => `vx_add(result.1, &minute)`
%sub `result.1 + result.2 + &result.3` => `vx_add(vx_add(result.1, result.2), &result.3)`
%closure 0 |p: (_, _)| -> (o: (_, _)) ensures kepts(p, o) ;; let (remaining, result) = p;
%closure 1 |p: (_, _)| -> (o: (_, _)) ensures kepts(p, o) ;; let (remaining, result) = p;
%sig
  ensures rem(goff_len(s@, d as nat), r)
%fn timezone_id
%sub `(1..=result.len()).rev().find(` => `vx_rfind(1, vx_blen(result), `
%sub `ZONES.contains(&result[..*len])` => `vx_zone(vx_slice(result, 0, *len))`
%sub `Some(len) => Ok((&s[len..], result[..len].to_string())),` => `Some(len) => { proof { assert(at_char(s@, len as int, len as int)); assert(at_char(result@, len as int, len as int)); assert(at_char(result@, 0, 0)); assert forall|j: nat| len < j <= n implies !zone(#[trigger] s@.take(j as int)) by { assert(ix(j as usize)); assert(at_char(s@, j as int, j as int)); } lemma_zone(s@, len as nat, n); } Ok((vx_from(s, len), vx_string(vx_slice(result, 0, len)))) },`
%sub `None => Err(Error(DateTimeError::InvalidTimezone(result.to_string())))` => `None => { proof { assert forall|j: nat| 0 < j <= n implies !zone(#[trigger] s@.take(j as int)) by { assert(ix(j as usize)); assert(at_char(s@, j as int, j as int)); } lemma_zone(s@, 0, n); } Err(Error(DateTimeError::InvalidTimezone(vx_string(result)))) }`
%body_start
  proof { lemma_pre_of(is_timezone_id, s@, s@.len(), |c: char| is_zc(c)); assert forall|k: nat| #[trigger] prefix_of(is_timezone_id, s@, s@.len(), k) implies ascii(s@.take(k as int)) by { assert forall|i: int| 0 <= i < k implies (#[trigger] s@.take(k as int)[i] as u32) < 128 by { assert(is_timezone_id.ensures((s@[i],), true)); } } }
%closure 0 |p: (_, _)| -> (o: Result<_, _>) requires zone_pair(s@, p) ensures zone_out(s@, p.1@.len(), o) ;; let (_, result) = p; let ghost n = result@.len(); proof { lemma_prefix(s@, result@, n); axiom_str_size(result); }
%closure 1 |len: &usize| -> (o: bool) requires 1 <= *len <= result@.len() ensures o == zone(s@.take(*len as int)) ;; proof { assert(at_char(result@, 0, 0)); assert(at_char(result@, *len as int, *len as int)); assert(at_char(s@, *len as int, *len as int)); }
%sig
  ensures rem(zid_len(s@), r)
%fn text_pattern
%sub `result.to_string()` => `vx_string(result)`
%closure 0 |p: (_, _)| -> (o: (_, _)) ensures t_out(p, o) ;; let (remaining, result) = p;
%sig
  ensures tp(txt(s@), r)
%fn quote_pattern
%sub `"'".into()` => `vx_string("'")`
%body_start
  proof { reveal_strlit("'"); assert("'"@ =~= seq!['\'']); }
%sig
  ensures tp(qq(s@), r)
%fn quoted_text_pattern
%sub `delimited(char('\''), many1(alt((tag("''"), is_not("'")))), char('\''))(s)` => `{ let vx_p = alt((tag("''"), is_not("'"))); proof { lemma_q(vx_p); } delimited(char('\''), many1(vx_p), char('\''))(s) }`
%sub `result.iter().map(` => `vx_map_str(&result, `
%sub `.collect()` => ``
%sub `*s == "''"` => `vx_str_eq(*s, "''")`
%closure 0 |p: (_, _)| -> (o: (_, _)) ensures q_out(p, o) ;; let (remaining, result) = p; proof { reveal_strlit("'"); assert("'"@ =~= seq!['\'']); assert forall|o: Seq<&str>| o.len() == result@.len() && (forall|i: int| 0 <= i < o.len() ==> (#[trigger] o[i])@ == unq(result@[i]@)) implies cat(o) == flat(result@) by { lemma_cat(result@, o); } }
%closure 1 |s: &&str| -> (o: &str) ensures o@ == unq((*s)@)
%sig
  ensures tp(quoted(s@), r)
%fn parse_pattern
%attr #[verifier::rlimit(60)]
%sub `match many1(alt((` => `let vx_p = alt((`
%sub `text_pattern )))(s) {` => `text_pattern )); proof { assert forall|i: &str, r: PR<'_>| #[trigger] vx_p.ensures((i,), r) implies pstep(i@, r) by { let t = i@; if t.len() > 0 && known(t[0]) { lemma_letter(t, t[0]); let q = seq![t[0]]; assert(q[0] == t[0]); reveal_strlit("''"); assert("''"@[0] == '\''); assert(quoted(t) is None); assert(qq(t) is None); assert(pstep(i@, r)); } else { reveal_strlit("''"); assert(t.len() > 0 && quoted(t) is Some ==> pstep(i@, r)); assert(t.len() > 0 && quoted(t) is None && begins(t, "''"@) ==> pstep(i@, r)); assert(t.len() > 0 && quoted(t) is None && !begins(t, "''"@) ==> pstep(i@, r)); assert(t.len() == 0 ==> pstep(i@, r)); assert(!(t.len() > 0 && most(t[0]) is Some)); } } lemma_p(vx_p); } match many1(vx_p)(s) {`
%sub `remaining.is_empty()` => `(vx_blen(remaining) == 0)`
%body_start
  proof { reveal_strlit(""); lemma_blen0(); }
%sig
  ensures r is Ok == (s@.len() > 0 && fields(s@) is Some), r is Ok ==> all_fd((r->Ok_0)@, fields(s@)->0)
%fn month_value
%sub `value.to_lowercase().as_str()` => `vx_lit(vx_lower(value).as_str())`
%sub `value.parse::<u8>()` => `vx_u8(value)`
%sub `Month::new(month).map_err(|_| anyhow!("'{}' is not a valid month value", value))` => `Month::new(month)`
%sig
  ensures r is Ok == month_no(value@) is Some, r is Ok ==> mnum(r->Ok_0) == month_no(value@)->0
%fn validate_matched_values
%sub `let day = matched_values.iter().find(` => `let day = vx_find_k(matched_values, Ghost(0), `
%sub `let month = matched_values.iter().find(` => `let month = vx_find_k(matched_values, Ghost(1), `
%sub `let year = matched_values.iter().find(` => `let year = vx_find_k(matched_values, Ghost(2), `
%sub `day.parse::<u8>()` => `vx_u8(day)`
%sub `ch.to_digit(10).unwrap_or_default()` => `vx_digit(ch)`
%body_start
  broadcast use axiom_u8;
%closure 0 |p: &&Pair| -> (o: bool) ensures o == isk(p.0, 0) ;; let token = &p.0;
%closure 1 |p: &&Pair| -> (o: bool) ensures o == isk(p.0, 1) ;; let token = &p.0;
%closure 2 |p: &&Pair| -> (o: bool) ensures o == isk(p.0, 2) ;; let token = &p.0;
%loop 0 it
  invariant it.seq() == year@, all_digs(year@), 0 <= acc < 400, acc as int == val(year@.take(it.index@ as int)) as int % 400
%loop_start 0
  proof { lemma_year(year@, it.index@ as int); }
%after_loop 0
  proof { assert(year@.take(year@.len() as int) =~= year@); lemma_leap(val(year@) as int); }
%sig
  requires texts_ok(matched_values@)
  ensures r is Ok == good(kinds(matched_values@), txts(matched_values@))
%fn validate_datetime_string
%attr #[verifier::rlimit(80)]
%sub 4 `result.into()` => `vx_string(result)`
%sub `.map_err(|err| format!("{:?}", err))?;` => `; let ghost g0 = result; proof { assert(gives_rest(*token, buffer@, result)); } let result = match result { Ok(x_) => x_, Err(_) => { proof { lemma_after(pattern_tokens@, (it.index@ + 1) as nat, pattern_tokens@.len(), value@); } return Err(vx_err_text()); } };`
%sub `(token.clone(), result.1)` => `(vx_tok_clone(token), result.1)`
%sub `buffer.is_empty()` => `(vx_blen(buffer) == 0)`
%closure 0 |p: (_, _)| -> (o: (_, _)) ensures same_pair(p, o) ;; let (remaining, result) = p;
%closure 1 |p: (_, _)| -> (o: (_, _)) ensures same_pair(p, o) ;; let (remaining, result) = p;
%closure 2 |p: (_, _)| -> (o: (_, _)) ensures same_pair(p, o) ;; let (remaining, result) = p;
%closure 3 |p: (_, _)| -> (o: (_, _)) ensures same_pair(p, o) ;; let (remaining, result) = p;
%body_start
  proof { lemma_blen0(); }
%loop 0 it
  invariant it.seq().len() == pattern_tokens@.len(), forall|k: int| 0 <= k < pattern_tokens@.len() ==> *(#[trigger] it.seq()[k]) == pattern_tokens@[k], counted(pattern_tokens@), after(pattern_tokens@, it.index@ as nat, value@) == Some(buffer@), matched_values@.len() == it.index@, matched_ok(matched_values@, pattern_tokens@, value@)
%loop_start 0
  proof { let i = it.index@ as int; assert(*token == pattern_tokens@[i]); assert(after(pattern_tokens@, i as nat, value@) == Some(buffer@)); }
%sig
  requires counted(pattern_tokens@)
  ensures r is Ok == accepts(pattern_tokens@, value@)
%after_loop 0
  proof { lemma_good(matched_values@, pattern_tokens@, value@); }
%fn validate_datetime
%sub `Ok(pattern_tokens) => validate_datetime_string(value, &pattern_tokens),` => `Ok(pattern_tokens) => { proof { lemma_counts(format@, pattern_tokens@); assert forall|ts: Seq<DateTimePatternToken>| #[trigger] all_fd(ts, fields(format@)->0) implies accepts(ts, value@) == accepts(pattern_tokens@, value@) by { lemma_same(ts, pattern_tokens@, fields(format@)->0, value@); } } validate_datetime_string(value, &pattern_tokens) },`
%sig
  ensures r is Ok == value_of(format@, value@)
%fn to_chrono_pattern
%sub 25 `buffer.push_str(` => `vx_push(&mut buffer, `
%sub `&str::replace(t, "%", "%%")` => `&vx_pct(t)`
%fmt exact
%loop 0 it
  invariant it.seq().len() == tokens@.len(), forall|k: int| 0 <= k < tokens@.len() ==> *(#[trigger] it.seq()[k]) == tokens@[k], buffer@ == cts(tokens@, it.index@ as nat)
%loop_end 0
  proof { assert(Seq::<char>::empty().push('%') =~= seq!['%']); assert(cts(tokens@, (it.index@ + 1) as nat) == cts(tokens@, it.index@ as nat) + ct(tokens@[it.index@ as int])); assert(cts(tokens@, it.index@ as nat) + Seq::<char>::empty() =~= cts(tokens@, it.index@ as nat)); }
%sig
  ensures r@ == cts(tokens@, tokens@.len())
