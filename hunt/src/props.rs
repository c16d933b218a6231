use crate::gen::Gen;
use stratum_dsp::features::onset as on;
use stratum_dsp::preprocessing as pre;

type R = Result<(), String>;
type F = fn(&mut Gen) -> R;

macro_rules! ck {
    ($c:expr, $($t:tt)*) => { if !($c) { return Err(format!($($t)*)); } };
}

pub fn table() -> Vec<(&'static str, F)> {
    vec![("P01", p01), ("P02", p02), ("P03", p03), ("P04", p04), ("P05", p05), ("P06", p06), ("P07", p07), ("P08", p08), ("P09", p09), ("P10", p10), ("P11", p11), ("P12", p12), ("P13", p13), ("P14", p14), ("P15", p15), ("P16", p16), ("P17", p17), ("P18", p18), ("P19", p19), ("P20", p20), ("P21", p21), ("P22", p22)]
}

fn near(a: f32, b: f32, rel: f32) -> bool {
    a == b || (a - b).abs() <= rel * (a.abs() + b.abs()) + 1e-30
}

// ---------------------------------------------------------------- P03
fn p03(g: &mut Gen) -> R {
    use pre::channel_mixer::{stereo_to_mono, ChannelMixMode::*};
    let n = g.len();
    let l = g.vals(n, true);
    let m = if g.chance(12) { g.len() } else { n };
    let mut r = g.vals(m, true);
    for i in 0..r.len().min(l.len()) {
        if g.chance(15) {
            r[i] = if g.chance(50) { l[i] } else { -l[i] };
        }
    }
    let k = g.r(0, 3);
    let mode = [Mono, MidSide, Dominant, Center][k];
    g.note("left", &l);
    g.note("right", &r);
    g.note("mode", &mode);
    g.nontrivial = n > 0;
    let out = stereo_to_mono(&l, &r, mode);
    ck!(out.is_ok() == (l.len() == r.len()), "equal lengths must succeed, unequal lengths must be an error: {:?}", out.is_ok());
    if let Ok(o) = out {
        ck!(o.len() == l.len(), "one output sample per pair: {} for {}", o.len(), l.len());
        for i in 0..o.len() {
            let e = if k == 2 { if l[i].abs() >= r[i].abs() { l[i] } else { r[i] } } else { (l[i] + r[i]) * 0.5 };
            ck!(near(o[i], e, 1e-6), "sample {} is {} but the documented mix is {}", i, o[i], e);
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- P06
fn med(v: &[f32]) -> f32 {
    let mut s = v.to_vec();
    s.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let n = s.len();
    if n % 2 == 0 { (s[n / 2 - 1] + s[n / 2]) / 2.0 } else { s[n / 2] }
}

fn p06(g: &mut Gen) -> R {
    use on::threshold::*;
    let n = g.len();
    let v = g.vals(n, true);
    let kk = match g.r(0, 9) { 0 => -g.unit() - 1e-6, 1 => 0.0, _ => g.f(0.0, 8.0) };
    let p = match g.r(0, 9) { 0 => -g.unit() - 1e-6, 1 => 1.0 + g.unit() + 1e-6, 2 => 0.0, 3 => 1.0, 4 => f32::NAN, _ => g.unit() };
    g.note("values", &v);
    g.note("k", &kk);
    g.note("percentile", &p);
    g.nontrivial = n > 1;
    let a = adaptive_threshold_median_mad(&v, kk);
    ck!(a.is_ok() == (n > 0 && kk >= 0.0), "median+MAD threshold accepted={} for {} values, k={}", a.is_ok(), n, kk);
    if let Ok(t) = a {
        let m = med(&v);
        let d: Vec<f32> = v.iter().map(|x| (x - m).abs()).collect();
        let e = m + kk * med(&d);
        ck!((t - e).abs() <= 1e-5 * (m.abs() + (kk * med(&d)).abs()) + 1e-30, "threshold {} but median + k*MAD = {}", t, e);
    }
    let b = percentile_threshold(&v, p);
    ck!(b.is_ok() == (n > 0 && p >= 0.0 && p <= 1.0), "percentile threshold accepted={} for {} values, p={}", b.is_ok(), n, p);
    if let Ok(t) = b {
        let mut s = v.clone();
        s.sort_by(|a, b| a.partial_cmp(b).unwrap());
        let ix = ((n as f32 * p) as usize).min(n - 1);
        ck!(t == s[ix], "percentile threshold {} but the value of rank {} is {}", t, ix, s[ix]);
    }
    Ok(())
}

// ---------------------------------------------------------------- P07
fn onset_list(v: &[usize], lo: usize, hi: usize, who: &str) -> R {
    for w in v.windows(2) {
        ck!(w[0] < w[1], "{}: positions not strictly increasing: {:?}", who, v);
    }
    ck!(v.iter().all(|&x| x >= lo && x < hi), "{}: position outside [{},{}): {:?}", who, lo, hi, v);
    Ok(())
}

fn p07(g: &mut Gen) -> R {
    let nf = g.len();
    let nb = g.r(1, 8);
    let mut s = g.spec(nf, nb);
    let mut good = true;
    if g.chance(15) && nf > 0 {
        s = g.ragged(s);
        let w = s[0].len();
        good = w > 0 && s.iter().all(|f| f.len() == w);
    }
    let p = match g.r(0, 9) { 0 => -0.25, 1 => 1.5, 2 => 0.0, 3 => 1.0, _ => g.unit() };
    let sr = g.pick(&[8000u32, 22050, 44100, 48000, 1]);
    g.note("spectrogram", &s);
    g.note("percentile", &p);
    g.note("sample_rate", &sr);
    let pok = (0.0..=1.0).contains(&p);
    let a = on::spectral_flux::detect_spectral_flux_onsets(&s, p);
    if nf > 0 && (!good || !pok) {
        ck!(a.is_err(), "spectral flux accepted a ragged spectrogram or percentile {}", p);
    }
    if let Ok(v) = &a { onset_list(v, 1, nf, "spectral flux")?; }
    let a = on::hfc::detect_hfc_onsets(&s, sr, p);
    if nf > 0 && !good {
        ck!(a.is_err(), "hfc accepted a ragged spectrogram");
    }
    if let Ok(v) = &a { onset_list(v, 1, nf, "hfc")?; }
    let a = on::hpss::detect_hpss_onsets(&s, p);
    if nf > 0 && !pok {
        ck!(a.is_err(), "hpss accepted percentile {}", p);
    }
    if let Ok(v) = &a { onset_list(v, 1, nf, "hpss")?; }
    let n = g.len() * g.r(1, 4);
    let x = g.vals(n, true);
    let fs = g.r(0, 12);
    let hop = g.r(0, 6);
    let th = g.pick(&[-60.0f32, -20.0, -6.0, 0.0, -1.0]);
    g.note("samples", &x);
    g.note("frame_size", &fs);
    g.note("hop_size", &hop);
    g.note("threshold_db", &th);
    let a = on::energy_flux::detect_energy_flux_onsets(&x, fs, hop, th);
    if n > 0 && (fs == 0 || hop == 0) {
        ck!(a.is_err(), "energy flux accepted frame size {} hop {}", fs, hop);
    }
    if let Ok(v) = &a { onset_list(v, hop.max(1), n, "energy flux")?; }
    g.nontrivial = a.map(|v| v.len() > 1).unwrap_or(false);
    Ok(())
}

// ---------------------------------------------------------------- P01
const NOTES: [&str; 12] = ["C", "C#", "D", "D#", "E", "F", "F#", "G", "G#", "A", "A#", "B"];
fn p01(g: &mut Gen) -> R {
    use stratum_dsp::Key;
    let code = |k: Key| match k { Key::Major(p) => ((p * 7) % 12 + 1, 'A'), Key::Minor(p) => (((p + 3) * 7) % 12 + 1, 'B') };
    for p in 0..12u32 {
        for k in [Key::Major(p), Key::Minor(p)] {
            let (n, l) = code(k);
            let nm = if l == 'A' { NOTES[p as usize].to_string() } else { format!("{}m", NOTES[p as usize]) };
            ck!(k.name() == nm, "{:?} is named {:?}, not {:?}", k, k.name(), nm);
            ck!(k.numerical() == format!("{}{}", n, l), "{:?} has code {:?}, not {}{}", k, k.numerical(), n, l);
            ck!(Key::from_numerical(&k.numerical()) == Some(k), "code {} reads back as {:?}", k.numerical(), Key::from_numerical(&k.numerical()));
        }
    }
    let parts = ["1", "2", "9", "10", "12", "13", "0", "00", "+", "-", " ", "A", "B", "a", "b", "\u{e9}", "\u{1d11e}", "m", "C", "#", "4294967296", "99999999999999999999", "\u{41}\u{301}", "\t"];
    let mut t = String::new();
    for _ in 0..g.r(0, 4) { t.push_str(&g.pick(&parts)); }
    g.note("text", &t);
    g.nontrivial = t.len() > 1;
    let want = (|| {
        let l = t.chars().last()?;
        if l != 'A' && l != 'B' { return None; }
        let n: u32 = t[..t.len() - 1].parse().ok()?;
        (0..12).flat_map(|p| [Key::Major(p), Key::Minor(p)]).find(|k| code(*k) == (n, l))
    })();
    let got = Key::from_numerical(&t);
    ck!(got == want, "text {:?} reads as {:?}, not {:?}", t, got, want);
    Ok(())
}

// ---------------------------------------------------------------- P02
fn score(g: &mut Gen) -> f32 {
    match g.r(0, 11) { 0 => 0.0, 1 => 1.0, 2 => -g.unit(), 3 => 1.0 + g.unit() * 5.0, 4 => f32::INFINITY, 5 => f32::NEG_INFINITY, 6 => 0.2, 7 => 0.3, 8 => 0.5, _ => g.unit() }
}
fn p02(g: &mut Gen) -> R {
    use stratum_dsp::analysis::result::*;
    let flags_all = [AnalysisFlag::MultimodalBpm, AnalysisFlag::WeakTonality, AnalysisFlag::TempoVariation, AnalysisFlag::OnsetDetectionAmbiguous];
    let nfl = g.r(0, 3);
    let flags: Vec<_> = (0..nfl).map(|_| g.pick(&flags_all)).collect();
    let words = ["BPM low", "Low BPM confidence", "weak key", "Key unclear", "low tonality", "bpm", "KEY", "", "grid unstable", "Tonality", "monkeys"];
    let nw = g.r(0, 3);
    let warns: Vec<String> = (0..nw).map(|_| g.pick(&words).to_string()).collect();
    let res = AnalysisResult {
        bpm: match g.r(0, 5) { 0 => 0.0, 1 => -g.unit(), 2 => f32::INFINITY, 3 => 1e-30, _ => g.f(60.0, 180.0) },
        bpm_confidence: score(g),
        key: Key::Major(g.r(0, 11) as u32),
        key_confidence: score(g),
        key_clarity: score(g),
        beat_grid: BeatGrid { downbeats: vec![], beats: vec![], bars: vec![] },
        grid_stability: score(g),
        metadata: AnalysisMetadata {
            duration_seconds: 1.0, sample_rate: 44100, processing_time_ms: 0.0, algorithm_version: String::new(), onset_method_consensus: 0.5, methods_used: vec![],
            flags: flags.clone(), confidence_warnings: warns.clone(), tempogram_candidates: None, tempogram_multi_res_triggered: None, tempogram_multi_res_used: None,
            tempogram_percussive_triggered: None, tempogram_percussive_used: None,
        },
    };
    g.note("bpm", &res.bpm);
    g.note("bpm_confidence", &res.bpm_confidence);
    g.note("key_confidence", &res.key_confidence);
    g.note("key_clarity", &res.key_clarity);
    g.note("grid_stability", &res.grid_stability);
    g.note("warnings", &warns);
    let c = stratum_dsp::compute_confidence(&res);
    let bw = warns.iter().any(|w| w.contains("BPM"));
    let kw = warns.iter().any(|w| w.contains("key") || w.contains("Key") || w.contains("tonality"));
    let b = if res.bpm <= 0.0 { 0.0 } else { res.bpm_confidence.clamp(0.0, 1.0) * if bw { 0.7 } else { 1.0 } };
    let cl = if res.key_clarity < 0.2 { 0.6 } else if res.key_clarity < 0.5 { 0.85 } else { 1.0 };
    let k = res.key_confidence.clamp(0.0, 1.0) * cl * if kw { 0.7 } else { 1.0 };
    let s = res.grid_stability.clamp(0.0, 1.0);
    ck!(near(c.bpm_confidence, b, 1e-5), "tempo confidence {} instead of {}", c.bpm_confidence, b);
    ck!(near(c.key_confidence, k, 1e-5), "key confidence {} instead of {}", c.key_confidence, k);
    ck!(c.grid_stability == s, "grid stability {} instead of {}", c.grid_stability, s);
    let (b, k) = (c.bpm_confidence, c.key_confidence);
    let o = if b > 0.0 && k > 0.0 { 0.4 * b + 0.3 * k + 0.3 * s } else { 0.6 * (b + k) };
    ck!((c.overall_confidence - o).abs() < 1e-5, "overall {} instead of {}", c.overall_confidence, o);
    for x in [b, k, s, c.overall_confidence] {
        ck!((0.0..=1.0).contains(&x), "a score of {} is outside 0..1", x);
    }
    let mut want = flags;
    if b < 0.3 { want.push(AnalysisFlag::MultimodalBpm); }
    if k < 0.2 { want.push(AnalysisFlag::WeakTonality); }
    if s < 0.3 { want.push(AnalysisFlag::TempoVariation); }
    ck!(format!("{:?}", c.flags) == format!("{:?}", want), "flags {:?} instead of {:?}", c.flags, want);
    let o = c.overall_confidence;
    for o in [o, 0.7, 0.5, 0.49999997, 0.6999999, 0.0, 1.0, g.unit()] {
        let mut c = c.clone();
        c.overall_confidence = o;
        let w = if o >= 0.7 { "High" } else if o < 0.5 { "Low" } else { "Medium" };
        ck!(c.confidence_level() == w, "score {} is called {}", o, c.confidence_level());
        ck!((c.is_high_confidence(), c.is_low_confidence(), c.is_medium_confidence()) == (w == "High", w == "Low", w == "Medium"), "score {} not exactly {}", o, w);
    }
    Ok(())
}

// ---------------------------------------------------------------- P04
fn p04(g: &mut Gen) -> R {
    use pre::silence::{detect_and_trim, SilenceDetector};
    let n = g.len() * g.r(1, 4);
    let mut x = g.vals(n, true);
    if g.chance(10) { x = vec![0.0; n]; }
    for _ in 0..g.r(0, 3) {
        if n > 0 { let a = g.r(0, n - 1); let b = g.r(a, n); for y in &mut x[a..b] { *y = 0.0; } }
    }
    if n > 0 && g.chance(40) { let a = g.r(0, n - 1); for y in &mut x[..a] { *y = 0.0; } }
    if n > 0 && g.chance(40) { let a = g.r(0, n - 1); for y in &mut x[a..] { *y = 0.0; } }
    let sr = g.pick(&[0u32, 1000, 8000, 44100, 1000, 2000, 1, u32::MAX]);
    let ms = g.pick(&[0u32, 1, 2, 5, 20, 100, 500, u32::MAX]);
    let fs = match g.r(0, 19) { 0 => 0, 1 => 1, 2 => 2, 3 => 100000, _ => g.r(1, 20) };
    let db = g.pick(&[-40.0f32, -60.0, -20.0, 0.0, 20.0, -200.0, -3.0]);
    g.note("samples", &x);
    g.note("sample_rate", &sr);
    g.note("min_duration_ms", &ms);
    g.note("frame_size", &fs);
    g.note("threshold_db", &db);
    let r = detect_and_trim(&x, sr, SilenceDetector { threshold_db: db, min_duration_ms: ms, frame_size: fs });
    ck!(r.is_ok() == (n == 0 || (sr > 0 && fs > 0)), "accepted={} for sample rate {} and frame size {}", r.is_ok(), sr, fs);
    let (t, rg) = match r { Ok(v) => v, Err(_) => return Ok(()) };
    g.nontrivial = rg.len() > 0;
    let min = (ms as f32 / 1000.0 * sr as f32) as usize;
    for w in rg.windows(2) { ck!(w[0].1 <= w[1].0, "regions overlap or are out of order: {:?}", rg); }
    for &(a, b) in &rg {
        ck!(a < b && b <= n, "region ({},{}) of {} samples", a, b, n);
        ck!(a == 0 || b - a >= min, "region ({},{}) is shorter than {} samples", a, b, min);
    }
    let ts = if rg.first().map_or(false, |q| q.0 == 0) { rg[0].1 } else { 0 };
    let te = if rg.last().map_or(false, |q| q.1 == n) { rg[rg.len() - 1].0 } else { n };
    let want: &[f32] = if ts < te { &x[ts..te] } else { &[] };
    ck!(t == want, "trimmed audio is not the input from {} to {}: {:?}", ts, te, t);
    if n > 0 && x.iter().all(|v| *v == 0.0) {
        ck!(t.is_empty() && rg == vec![(0, n)], "all-zero audio gives {} samples, regions {:?}", t.len(), rg);
    }
    Ok(())
}

// ---------------------------------------------------------------- P09
fn p09(g: &mut Gen) -> R {
    let nf = g.len().min(24);
    let nb = g.r(1, 8);
    let mut s = g.spec(nf, nb);
    if g.chance(10) { s = g.ragged(s); }
    let good = nf > 0 && !s[0].is_empty() && s.iter().all(|f| f.len() == s[0].len());
    let m = g.pick(&[0usize, 1, 2, 3, 5, 10, 40, 1 << 40]);
    g.note("spectrogram", &s);
    g.note("margin", &m);
    g.nontrivial = nf > 2;
    let r = on::hpss::hpss_decompose(&s, m);
    ck!(r.is_ok() == good, "accepted={} but rectangular and non-empty={}", r.is_ok(), good);
    if let Ok((h, p)) = r {
        ck!(h.len() == nf && p.len() == nf, "{} and {} frames for {}", h.len(), p.len(), nf);
        for i in 0..nf {
            ck!(h[i].len() == s[i].len() && p[i].len() == s[i].len(), "frame {} changed width", i);
            for j in 0..s[i].len() {
                let (o, a, b) = (s[i][j], h[i][j], p[i][j]);
                ck!(a >= 0.0 && b >= 0.0 && a <= o && b <= o, "entry ({},{}): {} splits into {} and {}", i, j, o, a, b);
                ck!((a + b - o).abs() <= o * 2e-6 + 1e-36, "entry ({},{}): {} + {} is not {}", i, j, a, b, o);
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- P10
fn nov_ok(v: &[f32]) -> R {
    ck!(v.iter().all(|x| *x >= 0.0 && *x <= 1.0), "values outside [0, 1]: {:?}", v);
    ck!(v.iter().all(|x| *x <= 1e-10) || v.iter().any(|x| *x == 1.0), "largest value is neither 1 nor negligible: {:?}", v);
    Ok(())
}

fn p10(g: &mut Gen) -> R {
    use stratum_dsp::features::period::novelty as nv;
    if g.chance(35) {
        let n = g.len();
        let mut c: Vec<Vec<f32>> = vec![];
        for _ in 0..3 {
            let m = if g.chance(80) { n } else { g.len() };
            let st = g.r(0, 3);
            c.push((0..m).map(|_| g.val(st, false).min(1.0)).collect());
        }
        let w: Vec<f32> = (0..3).map(|_| g.pick(&[0.0f32, 0.5, 0.3, 1.0, -1.0, 1e-12, 1e20, f32::NAN])).collect();
        let (lm, sm) = (g.pick(&[0usize, 1, 2, 3, 5, 16, 40, usize::MAX]), g.pick(&[0usize, 1, 2, 3, 5, 40, usize::MAX]));
        g.note("curves", &c);
        g.note("weights", &w);
        g.note("local_mean_window", &lm);
        g.note("smooth_window", &sm);
        let v = if g.chance(20) { nv::combined_novelty(&c[0], &c[1], &c[2]) } else { nv::combined_novelty_with_params(&c[0], &c[1], &c[2], w[0], w[1], w[2], lm, sm) };
        let want = c.iter().map(|x| x.len()).min().unwrap();
        g.nontrivial = want > 2;
        ck!(v.len() == want, "{} combined values, the shortest curve has {}", v.len(), want);
        return nov_ok(&v);
    }
    let nf = g.len().min(24);
    let nb = g.r(1, 12);
    let mut s = g.spec(nf, nb);
    if g.chance(12) { s = g.ragged(s); }
    let ragged = nf >= 2 && (s[0].is_empty() || s.iter().any(|f| f.len() != s[0].len()));
    let k = g.pick(&[0usize, 1, 2, 3, 5, 40, usize::MAX]);
    let (a, b) = (g.r(0, 14), g.pick(&[0usize, 1, 2, 3, 5, 8, 14, usize::MAX]));
    let sr = g.pick(&[0u32, 1, 2, 8000, 44100, u32::MAX]);
    let which = g.r(0, 7);
    g.note("spectrogram", &s);
    g.note("filter width", &k);
    g.note("band", &(a, b));
    g.note("sample_rate", &sr);
    let mels = g.pick(&[0usize, 4, 8, 40]);
    let lo = g.pick(&[0.0f32, 30.0, 1000.0, 22049.5, 1e9, -5.0, f32::NAN]);
    let hi = g.pick(&[0.0f32, 8000.0, 16000.0, 1e9, 20.0, f32::NAN, f32::INFINITY]);
    g.note("mel bands, lowest and highest frequency", &(mels, lo, hi));
    let n0 = if nf > 0 { s[0].len() } else { 0 };
    let mut want = nf.saturating_sub(1);
    let mut bad = ragged;
    if nf >= 2 && (4..=6).contains(&which) && b.min(n0) <= a.min(n0) + 1 { want = 0; }
    let (name, r) = match which {
        0 => ("spectral_flux_novelty", nv::spectral_flux_novelty(&s)),
        1 => ("superflux_novelty", nv::superflux_novelty(&s, k)),
        2 => ("energy_flux_novelty", nv::energy_flux_novelty(&s)),
        3 => { bad = bad || nf >= 1 && sr == 0; ("hfc_novelty", nv::hfc_novelty(&s, sr)) }
        4 => ("superflux_novelty_band", nv::superflux_novelty_band(&s, k, a, b)),
        5 => ("energy_flux_novelty_band", nv::energy_flux_novelty_band(&s, a, b)),
        6 => ("hfc_novelty_band", nv::hfc_novelty_band(&s, a, b)),
        _ => { bad = bad || nf >= 2 && (sr == 0 || n0 < 2); ("mel_superflux_novelty", nv::mel_superflux_novelty(&s, sr, mels, lo, hi, k)) }
    };
    g.note("function", name);
    g.nontrivial = !bad && nf > 2;
    ck!(r.is_err() == bad, "{}: error={} but ragged, too narrow or zero rate={}", name, r.is_err(), bad);
    if let Ok(v) = r {
        ck!(v.len() == want, "{}: {} values, {} expected", name, v.len(), want);
        return nov_ok(&v);
    }
    Ok(())
}

// ---------------------------------------------------------------- P11
fn p11(g: &mut Gen) -> R {
    let n = g.len();
    let s = g.vals(n, true);
    let t = match g.r(0, 5) { 0 => 0.0, 1 => -g.unit() * 2.0, 2 => 1.0 + g.unit(), _ => g.unit() };
    let d = g.pick(&[0usize, 1, 2, 3, 4, 5, 8, 20, 1 << 31, (1 << 32) + 1, usize::MAX]);
    g.note("signal", &s);
    g.note("threshold", &t);
    g.note("min_distance", &d);
    let p = stratum_dsp::features::period::peak_picking::find_peaks(&s, t, d);
    g.nontrivial = p.len() > 1;
    let mx = s.iter().copied().fold(0.0f32, f32::max);
    let th = if t > 0.0 && t < 1.0 { mx * t } else { t };
    let local = |i: usize| (i == 0 || s[i] > s[i - 1]) && (i + 1 >= n || s[i] > s[i + 1]);
    for w in p.windows(2) { ck!(w[0].1 >= w[1].1, "not in falling order: {:?}", p); }
    for (a, &(i, v)) in p.iter().enumerate() {
        ck!(i < n && s[i] == v, "peak ({},{}) is not a sample of the signal", i, v);
        ck!(local(i), "peak at {} is not above its neighbours", i);
        ck!(v >= th, "peak {} below threshold {}", v, th);
        for &(j, _) in &p[..a] { ck!(i != j && i.abs_diff(j) >= d, "peaks {} and {} closer than {}", i, j, d); }
    }
    ck!((n >= 3 && mx >= 1e-10) || p.is_empty(), "peaks {:?} in a short or silent signal", p);
    if n >= 3 && mx >= 1e-10 {
        for q in 0..n {
            if local(q) && s[q] >= th {
                ck!(p.iter().any(|&(i, v)| v >= s[q] && (i == q || i.abs_diff(q) < d)), "peak at {} of height {} was dropped without a reason", q, s[q]);
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- P05
fn p05(g: &mut Gen) -> R {
    use pre::normalization::{normalize, NormalizationConfig, NormalizationMethod::*};
    let n = g.len() * g.r(1, 8);
    let mut x = g.vals(n, true);
    let k = g.pick(&[1.0f32, 1.0, 1e-3, 1e-6, 1e-12, 1e-18, 1e4, 1e8, 1e-24]);
    for v in &mut x { *v *= k; }
    if g.chance(20) && n > 0 { let i = g.r(0, n - 1); x[i] *= 1000.0; }
    let m = g.r(0, 2);
    let h = g.pick(&[0.0f32, 1.0, 3.0, 0.1, 12.0, 60.0, 150.0]);
    let t = g.pick(&[-14.0f32, -23.0, 0.0, 20.0, -60.0, 60.0, -9.0]);
    let sr = g.pick(&[44100.0f32, 100.0, 10.0, 8000.0, 1.0, 0.0, -5.0, 48000.0]);
    g.note("samples", &x);
    g.note("method", &["Peak", "RMS", "Loudness"][m]);
    g.note("max_headroom_db", &h);
    g.note("target", &t);
    g.note("sample_rate", &sr);
    let mut y = x.clone();
    let r = normalize(&mut y, NormalizationConfig { target_loudness_lufs: t, max_headroom_db: h, method: [Peak, RMS, Loudness][m] }, sr);
    ck!(n > 0 || r.is_err(), "empty audio accepted");
    ck!(n == 0 || m == 2 || r.is_ok(), "{} audio samples rejected", n);
    let px = x.iter().fold(0.0f32, |a, b| a.max(b.abs()));
    let py = y.iter().fold(0.0f32, |a, b| a.max(b.abs()));
    ck!(y.iter().all(|v| v.is_finite()), "a sample is not finite: {:?}", y);
    if r.is_ok() {
        ck!(py <= 1.000001, "clips: largest magnitude {}", py);
    }
    if px <= 1e-10 && (m == 0 || r.is_err()) { ck!(x == y, "near-silent audio was changed"); }
    g.nontrivial = px > 1e-10;
    if px > 0.0 {
        let i = x.iter().position(|v| v.abs() == px).unwrap();
        let gain = y[i] as f64 / x[i] as f64;
        ck!(gain >= 0.0, "negative gain {}", gain);
        for j in 0..n {
            let e = x[j] as f64 * gain;
            ck!((y[j] as f64 - e).abs() <= 1e-6 * e.abs() + 1e-40, "sample {}: {} became {}, the common gain {} gives {}", j, x[j], y[j], gain, e);
        }
    }
    if m == 0 && r.is_ok() && px > 1e-10 {
        let want = 10f32.powf(-h / 20.0);
        ck!((py - want).abs() <= 3e-6 * want, "largest sample is {} instead of {}", py, want);
    }
    Ok(())
}

// ---------------------------------------------------------------- P08
fn p08(g: &mut Gen) -> R {
    use on::consensus::{vote_onsets, OnsetConsensus};
    let base = g.pick(&[0usize, 0, 1000, (1 << 31) - 50, (1 << 31) + 7, (1 << 32) - 20000]);
    let spread = g.pick(&[30usize, 500, 5000, 100000]);
    let mut lists: Vec<Vec<usize>> = vec![];
    for _ in 0..4 {
        let n = if g.chance(25) { 0 } else { g.len().min(30) };
        let mut v: Vec<usize> = (0..n).map(|_| base + g.r(0, spread)).collect();
        if g.chance(10) { v.push(g.r(0, 100)); }
        if g.chance(80) { v.sort(); }
        lists.push(v);
    }
    if g.chance(30) { let c = lists[0].clone(); lists[2] = c; }
    let mut w = [0.25f32; 4];
    if g.chance(60) { for x in &mut w { *x = g.pick(&[0.0f32, 0.1, 0.25, 0.5, 1.0, 3.0, 1e20, 1e-20]); } }
    if g.chance(8) { let i = g.r(0, 3); w[i] = -0.1; }
    let tol = g.pick(&[0u32, 1, 10, 50, 100, 1000, u32::MAX]);
    let sr = g.pick(&[0u32, 44100, 48000, 8000, 1, u32::MAX, 44100, 44100]);
    g.note("lists", &lists);
    g.note("weights", &w);
    g.note("tolerance_ms", &tol);
    g.note("sample_rate", &sr);
    let r = vote_onsets(OnsetConsensus { energy_flux: lists[0].clone(), spectral_flux: lists[1].clone(), hfc: lists[2].clone(), hpss: lists[3].clone() }, w, tol, sr);
    ck!(r.is_ok() == (tol > 0 && sr > 0 && w.iter().all(|x| *x >= 0.0)), "accepted={} for rate {} tolerance {} weights {:?}", r.is_ok(), sr, tol, w);
    let v = match r { Ok(v) => v, Err(_) => return Ok(()) };
    let all: Vec<usize> = lists.concat();
    g.nontrivial = v.len() > 1;
    ck!(v.len() <= all.len() && v.is_empty() == all.is_empty(), "{} candidates for {} onsets", v.len(), all.len());
    for p in v.windows(2) { ck!(p[0].confidence >= p[1].confidence, "confidences not falling: {} then {}", p[0].confidence, p[1].confidence); }
    for c in &v {
        ck!(c.time_samples >= *all.iter().min().unwrap() && c.time_samples <= *all.iter().max().unwrap(), "candidate at {} outside the onsets given", c.time_samples);
        ck!(c.time_seconds == c.time_samples as f32 / sr as f32, "{} s for sample {}", c.time_seconds, c.time_samples);
        ck!(c.voted_by >= 1 && c.voted_by <= 4, "{} supporting methods", c.voted_by);
        ck!(c.confidence >= 0.0 && c.confidence <= 1.0, "confidence {}", c.confidence);
    }
    Ok(())
}

// ---------------------------------------------------------------- P18
fn unit_form(x: &[f32], o: &[f32], who: &str) -> R {
    ck!(x.len() == o.len(), "{}: {} values became {}", who, x.len(), o.len());
    let n = x.iter().map(|v| v * v).sum::<f32>().sqrt();
    for i in 0..x.len() {
        let e = if n > 1e-10 { x[i] / n } else { 1.0 / (x.len() as f32).sqrt() };
        ck!(near(o[i], e, 1e-4) || n < 2e-10 && n > 0.5e-10, "{}: value {} is {} but {} was due", who, i, o[i], e);
    }
    Ok(())
}

fn p18(g: &mut Gen) -> R {
    use stratum_dsp::features::chroma::{normalization::*, smoothing::*};
    let n = if g.chance(70) { 12 } else { g.len() };
    let mut v = g.vals(n, false);
    if g.chance(10) { v.iter_mut().for_each(|x| *x *= 1e-11); }
    let pw = g.pick(&[1.0f32, 1.5, 2.0, 0.5, 3.0, 0.0]);
    let nf = g.len();
    let nb = g.r(1, 12);
    let s = g.spec(nf, nb);
    let w = match g.r(0, 5) { 0 => g.r(0, 2), 1 => 2 * nf + g.r(0, 3), _ => g.r(0, 9) };
    g.note("vector", &v);
    g.note("power", &pw);
    g.note("frames", &s);
    g.note("window", &w);
    g.nontrivial = nf > 1;
    unit_form(&v, &l2_normalize_chroma(&v), "normalisation")?;
    let q: Vec<f32> = v.iter().map(|x| x.powf(pw)).collect();
    if q.iter().all(|x| *x < 1e15) {
        unit_form(&q, &sharpen_chroma(&v, pw), "sharpening")?;
    }
    for med in [true, false] {
        let o = if med { smooth_chroma(&s, w) } else { smooth_chroma_average(&s, w) };
        ck!(o.len() == s.len() && o.iter().all(|r| r.len() == nb), "smoothing changed the shape");
        let ww = if med && w % 2 == 0 { w + 1 } else { w };
        for f in 0..nf {
            for c in 0..nb {
                let e = if w <= 1 { s[f][c] } else {
                    let mut x: Vec<f32> = (0..ww).map(|k| f as i64 + k as i64 - (w / 2) as i64).filter(|&i| i >= 0 && i < nf as i64).map(|i| s[i as usize][c]).collect();
                    if med { x.sort_by(|a, b| a.partial_cmp(b).unwrap()); x[x.len() / 2] } else { x.iter().sum::<f32>() / x.len() as f32 }
                };
                ck!(near(o[f][c], e, if med { 0.0 } else { 1e-4 }), "smoothed ({}) frame {} class {} is {} but {} was due", if med { "median" } else { "mean" }, f, c, o[f][c], e);
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- P20
const KK: [[f32; 12]; 2] = [[6.35, 2.23, 3.48, 2.33, 4.38, 4.09, 2.52, 5.19, 2.39, 3.66, 2.29, 2.88], [6.33, 2.68, 3.52, 5.38, 2.60, 3.53, 2.54, 4.75, 3.98, 2.69, 3.34, 3.17]];
const TE: [[f32; 12]; 2] = [[5.0, 2.0, 3.5, 2.0, 4.5, 4.0, 2.0, 4.5, 2.0, 3.5, 1.5, 4.0], [5.0, 2.0, 3.5, 5.0, 2.0, 3.5, 2.0, 4.5, 3.5, 2.0, 4.0, 3.5]];

fn tmpl_ok(t: &stratum_dsp::features::key::templates::KeyTemplates, p: &[[f32; 12]; 2], who: &str) -> R {
    for m in 0..2 {
        let rows = if m == 0 { &t.major } else { &t.minor };
        ck!(rows.len() == 12, "{}: {} templates per mode", who, rows.len());
        let n = p[m].iter().map(|&x| x as f64 * x as f64).sum::<f64>().sqrt();
        for k in 0..12usize {
            ck!(rows[k].len() == 12, "{}: template {} has {} entries", who, k, rows[k].len());
            for j in 0..12usize {
                let e = p[m][(j + 12 - k) % 12] as f64 / n;
                ck!((rows[k][j] as f64 - e).abs() < 2e-6, "{}: mode {} tonic {} class {} is {} but {} was due", who, m, k, j, rows[k][j], e);
            }
            let a = t.get_template((k + 12 * m) as u32);
            ck!(a == &rows[k][..], "get_template({}) is not that template", k + 12 * m);
            for x in [k, k + 12, k + 24] {
                let b = if m == 0 { t.get_major_template(x as u32) } else { t.get_minor_template(x as u32) };
                ck!(b == &rows[k][..], "mode {} template of tonic {} is not template {}", m, x, k);
            }
        }
    }
    Ok(())
}

fn p20(g: &mut Gen) -> R {
    use stratum_dsp::features::key::templates::*;
    g.nontrivial = true;
    tmpl_ok(&KeyTemplates::new(), &KK, "new")?;
    tmpl_ok(&KeyTemplates::default(), &KK, "default")?;
    tmpl_ok(&KeyTemplates::new_with_template_set(TemplateSet::KrumhanslKessler), &KK, "Krumhansl-Kessler")?;
    tmpl_ok(&KeyTemplates::new_with_template_set(TemplateSet::Temperley), &TE, "Temperley")
}

// ---------------------------------------------------------------- P21
fn p21(g: &mut Gen) -> R {
    use stratum_dsp::analysis::result::Key;
    use stratum_dsp::features::key::key_clarity::compute_key_clarity;
    let n = g.len();
    let v = g.vals(n, true);
    g.note("scores", &v);
    g.nontrivial = n > 1;
    let s: Vec<(Key, f32)> = v.iter().enumerate().map(|(i, &x)| (Key::Major((i % 12) as u32), x)).collect();
    let c = compute_key_clarity(&s);
    ck!((0.0..=1.0).contains(&c), "clarity {}", c);
    let (mn, mx) = v.iter().fold((f32::MAX, f32::MIN), |a, &x| (a.0.min(x), a.1.max(x)));
    let e = if n < 2 || mx - mn <= 1e-10 { 0.0 } else { ((v[0] - v.iter().sum::<f32>() / n as f32) / (mx - mn)).clamp(0.0, 1.0) };
    ck!((c - e).abs() < 1e-3 || n > 1 && (mx - mn) < 2e-10, "clarity {} but {} was due", c, e);
    p21_changes(g)
}

fn chroma(g: &mut Gen, max: usize) -> Vec<Vec<f32>> {
    let nf = g.r(0, max);
    let mut s = if g.chance(40) {
        // sections in different keys
        let mut root = g.r(0, 11);
        let mut minor = g.chance(50);
        (0..nf).map(|_| {
            if g.chance(8) { root = g.r(0, 11); minor = g.chance(50); }
            let mut v = vec![0.0f32; 12];
            for (k, w) in [(0, 1.0), (if minor { 3 } else { 4 }, 0.7), (7, 0.8)] { v[(root + k) % 12] = w * g.f(0.8, 1.2); }
            v
        }).collect()
    } else { g.spec(nf, 12) };
    if nf > 0 && g.chance(6) { s = g.ragged(s); }
    s
}

fn p21_changes(g: &mut Gen) -> R {
    use stratum_dsp::features::key::{key_changes::detect_key_changes, templates::KeyTemplates};
    let s = chroma(g, 60);
    let (sr, hop) = (g.pick(&[0u32, 100, 1000, 44100]), g.pick(&[0usize, 10, 50, 512]));
    let dur = g.pick(&[0.0f32, 0.05, 0.1, 0.5, 1.0, 30.0]);
    let ov = g.pick(&[0.0f32, 0.02, 0.05, 0.5, 2.0]);
    g.note("chroma", &s);
    g.note("rate, hop, duration, overlap", &(sr, hop, dur, ov));
    if let Ok(r) = detect_key_changes(&s, sr, hop, &KeyTemplates::new(), dur, ov) {
        let k = &r.segment_keys;
        let fps = sr as f32 / hop as f32;
        let (sf, of) = ((dur * fps) as usize, (ov * fps) as usize);
        ck!(sf > of && sf <= s.len(), "segment of {} and overlap of {} frames accepted for {} frames", sf, of, s.len());
        ck!(!k.is_empty() && !s.is_empty(), "no segment but a result");
        for w in k.windows(2) { ck!(w[0].0 <= w[1].0, "segments out of order: {:?}", k); }
        for x in k { ck!(x.0 >= 0.0 && (0.0..=1.0).contains(&x.2) && key_ok(&x.1), "segment {:?}", x); }
        ck!(k.iter().any(|x| x.1 == r.primary_key), "primary key {:?} not among the segments {:?}", r.primary_key, k);
        ck!((0.0..=1.0).contains(&r.primary_confidence), "primary confidence {}", r.primary_confidence);
        let want: Vec<_> = k.windows(2).filter(|w| w[0].1 != w[1].1 && (w[0].2 + w[1].2) / 2.0 > 0.2).map(|w| (w[1].0, w[0].1, w[1].1, (w[0].2 + w[1].2) / 2.0)).collect();
        let have: Vec<_> = r.key_changes.iter().map(|c| (c.timestamp, c.from_key, c.to_key, c.confidence)).collect();
        ck!(want == have, "changes {:?} but the segments change at {:?}", have, want);
    }
    Ok(())
}

// ---------------------------------------------------------------- P19
fn key_ok(k: &stratum_dsp::analysis::result::Key) -> bool {
    use stratum_dsp::analysis::result::Key::*;
    match k { Major(i) | Minor(i) => *i < 12 }
}

fn rank_ok(r: &stratum_dsp::features::key::KeyDetectionResult, best: bool, who: &str) -> R {
    let a = &r.all_scores;
    ck!(a.len() == 24 && a.iter().all(|x| key_ok(&x.0)), "{}: not 24 valid keys: {:?}", who, a);
    for i in 0..24 { for j in 0..i { ck!(a[i].0 != a[j].0, "{}: key {:?} twice", who, a[i].0); } }
    for w in a.windows(2) { ck!(w[0].1 >= w[1].1, "{}: scores not falling: {:?}", who, a); }
    ck!((0.0..=1.0).contains(&r.confidence), "{}: confidence {}", who, r.confidence);
    ck!(a.iter().any(|x| x.0 == r.key), "{}: key {:?} not ranked", who, r.key);
    ck!(r.top_keys.len() == 3, "{}: {} top keys", who, r.top_keys.len());
    if best {
        ck!(r.key == a[0].0, "{}: key {:?} but the best is {:?}", who, r.key, a[0].0);
        ck!(r.top_keys == a[..3], "{}: top keys {:?} but the ranking starts {:?}", who, r.top_keys, &a[..3]);
        let e = if a[0].1 > 0.0 { ((a[0].1 - a[1].1) / a[0].1).clamp(0.0, 1.0) } else { 0.0 };
        ck!((r.confidence - e).abs() < 1e-6, "{}: confidence {} but the lead is {}", who, r.confidence, e);
    }
    Ok(())
}

fn p19(g: &mut Gen) -> R {
    use stratum_dsp::features::key::{detector::*, templates::*};
    let mut s = chroma(g, 30);
    if g.chance(5) { s.iter_mut().for_each(|v| v.iter_mut().for_each(|x| *x = -*x)); }
    let t = KeyTemplates::new_with_template_set(if g.chance(50) { TemplateSet::Temperley } else { TemplateSet::KrumhanslKessler });
    let good = !s.is_empty() && s.iter().all(|v| v.len() == 12);
    let wn = if g.chance(10) { g.len() } else { s.len() };
    let sg = g.chance(20);
    let w = if g.chance(50) { Some(g.vals(wn, sg)) } else { None };
    g.note("chroma", &s);
    g.note("weights", &w);
    g.nontrivial = good && s.len() > 1;
    let r = detect_key(&s, &t);
    ck!(r.is_ok() == good, "detect_key accepted={} a sequence that is well formed={}", r.is_ok(), good);
    if let Ok(r) = &r { rank_ok(r, true, "detect_key")?; }
    let wg = good && w.as_ref().map_or(true, |w| w.len() == s.len());
    let r = detect_key_weighted(&s, &t, w.as_deref());
    ck!(r.is_ok() == wg, "detect_key_weighted accepted={} input that is well formed={}", r.is_ok(), wg);
    if let Ok(r) = &r {
        rank_ok(r, true, "detect_key_weighted")?;
        let q = detect_key_weighted(&s, &t, w.as_deref()).map_err(|_| "second call failed".to_string())?;
        ck!(q.key == r.key && q.all_scores == r.all_scores && q.confidence == r.confidence, "the same call gave another answer");
    }
    Ok(())
}

// ---------------------------------------------------------------- P15, P16, P17
fn onset_times(g: &mut Gen, max: usize) -> Vec<f32> {
    let n = g.r(0, max);
    let iv = g.f(0.05, 1.2);
    let mut t = g.pick(&[0.0f32, 0.0, 0.3, 5.0, 100.0]);
    (0..n).map(|_| {
        let x = t;
        if g.chance(10) { t += iv * g.f(0.3, 3.0); } else if g.chance(60) { t += iv; } else { t += iv * g.f(0.85, 1.15); }
        x
    }).collect()
}

fn p15(g: &mut Gen) -> R {
    use stratum_dsp::features::beat_tracking::hmm::HmmBeatTracker;
    let mut o = onset_times(g, 30);
    if o.len() > 2 && g.chance(10) { let (i, j) = (g.r(0, o.len() - 1), g.r(0, o.len() - 1)); o.swap(i, j); }
    let bpm = if g.chance(20) { g.pick(&[0.0f32, -3.0, 1e-10, 1e-9, 300.0, 300.5, 299.0]) } else { g.f(40.0, 200.0) };
    g.note("onsets", &o);
    g.note("tempo", &bpm);
    g.nontrivial = o.len() > 3;
    let bad = bpm <= 1e-10 || bpm > 300.0 || o.is_empty();
    match HmmBeatTracker::new(bpm, o.clone(), 44100).track_beats() {
        Err(e) => ck!(bad, "error {:?}", e),
        Ok(b) => {
            ck!(!bad, "accepted");
            let iv = 60.0f32 / bpm;
            let n = ((o[o.len() - 1] - o[0]) / iv).ceil() as usize + 1;
            for w in b.windows(2) { ck!(w[0].time_seconds <= w[1].time_seconds, "beats out of order: {:?}", w); }
            for x in &b {
                ck!((0.0..=1.0).contains(&x.confidence), "confidence {}", x.confidence);
                ck!((0..n).any(|k| x.time_seconds == o[0] + k as f32 * iv), "beat at {} s off the grid of {} beats from {} every {} s", x.time_seconds, n, o[0], iv);
                ck!(o.iter().any(|&t| (t - x.time_seconds).abs() <= 0.0537), "beat at {} s but no onset near it", x.time_seconds);
            }
            for k in 0..n {
                let t = o[0] + k as f32 * iv;
                ck!(!o.iter().any(|&x| (x - t).abs() <= 0.0536) || b.iter().any(|x| x.time_seconds == t), "onset near the grid time {} s, but no beat there: {:?}", t, b);
            }
            ck!(b.iter().any(|x| x.time_seconds == o[0]), "the first onset is no beat");
        }
    }
    Ok(())
}

fn p14(g: &mut Gen) -> R {
    use stratum_dsp::features::beat_tracking::generate_beat_grid;
    let mut o = onset_times(g, 60);
    if o.len() > 2 && g.chance(10) { let (i, j) = (g.r(0, o.len() - 1), g.r(0, o.len() - 1)); o.swap(i, j); }
    let bpm = if g.chance(12) { g.pick(&[0.0f32, -3.0, 1e-10, 1e-9, 300.0, 300.5, 299.0]) } else if o.len() > 1 && o[1] > o[0] && g.chance(50) { (60.0 / (o[1] - o[0])).min(290.0) } else { g.f(40.0, 200.0) };
    let conf = g.pick(&[0.0f32, 0.7, 1.0, -1.0, 3.0]);
    g.note("onsets", &o);
    g.note("tempo, confidence", &(bpm, conf));
    g.nontrivial = o.len() > 3;
    let bad = bpm <= 1e-10 || bpm > 300.0 || o.is_empty();
    match generate_beat_grid(bpm, conf, &o, 44100) {
        Err(e) => ck!(bad, "error {:?}", e),
        Ok((gr, st)) => {
            ck!(!bad, "accepted");
            ck!((0.0..=1.0).contains(&st), "stability {}", st);
            let (b, d) = (&gr.beats, &gr.downbeats);
            ck!(!b.is_empty(), "no beat");
            for w in b.windows(2) { ck!(w[0] < w[1], "beats out of order: {:?}", w); }
            for x in b { ck!(o.iter().any(|&t| (t - x).abs() <= 0.0537), "beat at {} s but no onset near it", x); }
            ck!(gr.bars == *d, "bars {:?} differ from downbeats {:?}", gr.bars, d);
            let fits = [4.0f32, 3.0, 6.0].iter().any(|&k| {
                let bar = 60.0 / bpm * k;
                let mut want = vec![b[0]];
                for &x in &b[1..] { if (x - (want[want.len() - 1] + bar)).abs() <= bar * 0.1 { want.push(x); } }
                want == *d
            });
            ck!(fits, "downbeats {:?} of the beats {:?}", d, b);
        }
    }
    Ok(())
}

fn p16(g: &mut Gen) -> R {
    use stratum_dsp::features::beat_tracking::tempo_variation::*;
    use stratum_dsp::features::beat_tracking::time_signature::*;
    let b = onset_times(g, 60);
    let bpm = if g.chance(15) { g.pick(&[0.0f32, -3.0, 1e-10, 1e-9, 300.5]) } else { g.f(40.0, 200.0) };
    g.note("beats", &b);
    g.note("tempo", &bpm);
    g.nontrivial = b.len() > 8;
    match detect_time_signature(&b, bpm) {
        Err(e) => ck!(b.len() >= 8 && bpm <= 1e-10, "error {:?}", e),
        Ok((t, c)) => {
            ck!(b.len() < 8 || bpm > 1e-10, "tempo accepted");
            ck!((0.0..=1.0).contains(&c), "time signature confidence {}", c);
            ck!(b.len() >= 8 || t == TimeSignature::FourFour && c == 0.5, "{:?} {} for {} beats", t, c, b.len());
        }
    }
    ck!([TimeSignature::FourFour, TimeSignature::ThreeFour, TimeSignature::SixEight].map(|t| t.beats_per_bar()) == [4, 3, 6], "beats per bar");
    match detect_tempo_variations(&b, bpm) {
        Err(e) => ck!(b.len() >= 4 && bpm <= 1e-10, "error {:?}", e),
        Ok(s) => {
            ck!(b.len() < 4 || bpm > 1e-10, "tempo accepted");
            ck!(!s.is_empty(), "no segment");
            for w in s.windows(2) { ck!(w[0].start_time < w[1].start_time, "segments out of order: {:?}", s); }
            for x in &s {
                ck!((0.0..=1.0).contains(&x.confidence), "segment confidence {:?}", x);
                ck!(bpm <= 0.0 || x.bpm > 0.0, "segment tempo {:?}", x);
                ck!(b.is_empty() || b[0] <= x.start_time && x.start_time <= x.end_time && x.end_time <= b[b.len() - 1], "segment {:?} outside the beats", x);
            }
            ck!(has_tempo_variation(&s) == s.iter().any(|x| x.is_variable), "variation");
        }
    }
    Ok(())
}

fn p17(g: &mut Gen) -> R {
    use stratum_dsp::features::beat_tracking::bayesian::BayesianBeatTracker;
    let bpm = if g.chance(15) { g.pick(&[0.0f32, -3.0, 1e-10, 1e-9, 300.5, 300.0, 59.0, 181.0, 184.0]) } else { g.f(50.0, 200.0) };
    let c0 = g.pick(&[0.0f32, 0.5, 1.0, -1.0, 2.0]);
    g.note("tempo, confidence", &(bpm, c0));
    let mut t = BayesianBeatTracker::new(bpm, c0);
    ck!(t.get_bpm() == bpm && t.get_confidence() == c0.clamp(0.0, 1.0) && t.get_history() == [bpm], "new: {:?}", t);
    let n = g.r(1, 5);
    for _ in 0..n {
        let o = onset_times(g, 12);
        g.note("onsets", &o);
        g.nontrivial |= o.len() > 2;
        let (b, c, h) = (t.current_bpm, t.current_confidence, t.history.clone());
        let bad = o.is_empty() || b <= 1e-10 || b > 300.0;
        match t.update_with_onsets(&o, 44100) {
            Err(e) => {
                ck!(bad, "error {:?}", e);
                ck!(t.current_bpm == b && t.current_confidence == c && t.history == h, "a rejected update changed the state");
            }
            Ok((nb, nc)) => {
                ck!(!bad, "accepted");
                ck!(nb == t.current_bpm && nc == t.current_confidence && nb == t.get_bpm() && nc == t.get_confidence(), "answer {:?} is not the state {:?}", (nb, nc), t);
                ck!(t.history.len() == h.len() + 1 && t.history[..h.len()] == h[..] && t.history[h.len()] == nb, "history {:?} after {:?}", t.history, h);
                ck!(nb == b || (60.0..=180.0).contains(&nb) && nb >= b - 5.0 && nb <= b + 5.0, "tempo went from {} to {}", b, nb);
                ck!((0.0..=1.0).contains(&nc), "confidence {}", nc);
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- P13
fn p13(g: &mut Gen) -> R {
    use stratum_dsp::features::period as pd;
    let base = g.f(40.0, 250.0);
    let list = |g: &mut Gen| -> Vec<pd::BpmCandidate> {
        let n = if g.chance(15) { 0 } else { g.r(1, 14) };
        (0..n).map(|_| {
            let b = match g.r(0, 6) { 0 => base, 1 => base * 2.0, 2 => base / 2.0, 3 => base + g.f(-4.0, 4.0), 4 => g.pick(&[60.0f32, 180.0, 59.99, 180.01, 120.0]), _ => g.f(1.0, 1024.0) };
            let c = if g.chance(40) { g.pick(&[0.0f32, 1.0, 0.5, 0.25]) } else { g.unit() };
            pd::BpmCandidate { bpm: b.min(1024.0), confidence: c }
        }).collect()
    };
    let (a, b) = (list(g), list(g));
    g.note("candidates", &(a.iter().map(|c| (c.bpm, c.confidence)).collect::<Vec<_>>(), b.iter().map(|c| (c.bpm, c.confidence)).collect::<Vec<_>>()));
    g.nontrivial = a.len() + b.len() > 3;
    let cents = g.pick(&[50.0f32, 0.0, 100.0, 600.0, -5.0]);
    g.note("tolerance", &cents);
    let v = match pd::merge_bpm_candidates(a.clone(), b.clone(), cents) { Ok(v) => v, Err(e) => return Err(format!("merge error {:?}", e)) };
    ck!(v.is_empty() == (a.is_empty() && b.is_empty()), "{} estimates from {} and {} candidates", v.len(), a.len(), b.len());
    let inr = |x: f32| (60.0..=180.0).contains(&x);
    for e in &v {
        ck!(e.confidence >= 0.0 && e.confidence <= 4.2103, "confidence {}", e.confidence);
        ck!(e.method_agreement >= 1, "agreement {}", e.method_agreement);
        ck!(a.iter().chain(b.iter()).any(|c| (c.bpm as f64 - e.bpm as f64).abs() <= 2.1), "estimate {} far from every candidate", e.bpm);
    }
    for i in 0..v.len() {
        for j in i + 1..v.len() {
            let (x, y) = (&v[i], &v[j]);
            let eff = |e: &pd::BpmEstimate| if inr(e.bpm) { e.confidence } else { e.confidence * 0.5 };
            let (ex, ey) = (eff(x), eff(y));
            let ok = if inr(x.bpm) == inr(y.bpm) { ex > ey || ex == ey && x.method_agreement >= y.method_agreement } else if (ex - ey).abs() < 0.5 { inr(x.bpm) } else { ex >= ey };
            ck!(ok, "estimate {:?} listed before {:?}", x, y);
        }
    }
    // whole estimates
    let (lo, hi) = if g.chance(15) { (g.pick(&[0.0f32, -1.0, 60.0, 200.0]), g.pick(&[0.0f32, -5.0, 60.0, 100.0])) } else { let l = g.f(20.0, 120.0); (l, l + g.f(0.5, 180.0)) };
    let (sr, hop, res) = (g.pick(&[0u32, 64, 8000, 22050, 44100, 44100]), g.pick(&[0usize, 64, 512, 512, 1024]), g.pick(&[1.0f32, 0.5, 2.0, 7.3, 0.0, -1.0]));
    let n = if sr < 100 { g.r(0, 2) } else { g.r(0, 14) };
    let step = if sr < 100 { 40 } else { g.r(1, 30000) };
    let mut x = g.r(0, 3000);
    let o: Vec<usize> = (0..n).map(|_| { let y = x; x += if sr < 100 || g.chance(80) { step } else { g.r(0, 40000) }; y }).collect();
    g.note("onsets, rate, hop, lowest, highest, resolution", &(&o, sr, hop, lo, hi, res));
    let bad = n == 0 || sr == 0 || hop == 0 || lo <= 0.0 || hi <= 0.0 || lo >= hi || res <= 0.0;
    let w = |g: &mut Gen| g.pick(&[0.0f32, 1.0, 0.5, -1.0, 3.0, f32::NAN, f32::INFINITY]);
    let gr = pd::LegacyBpmGuardrails { preferred_min: g.f(40.0, 200.0), preferred_max: g.f(40.0, 200.0), soft_min: g.f(40.0, 200.0), soft_max: g.f(40.0, 200.0), mul_preferred: w(g), mul_soft: w(g), mul_extreme: w(g) };
    g.note("guardrails", &gr);
    for (k, r) in [pd::estimate_bpm(&o, sr, hop, lo, hi, res), pd::estimate_bpm_with_guardrails(&o, sr, hop, lo, hi, res, gr)].into_iter().enumerate() {
        match r {
            Err(e) => ck!(bad || sr < 64 || n > 1 && o.iter().all(|&x| x / hop == 0), "estimate error {:?}", e),
            Ok(v) => {
                ck!(!bad, "estimate accepted");
                if let Some(e) = v {
                    ck!(e.bpm as f64 >= lo as f64 - 2.1 && e.bpm as f64 <= hi as f64 + 2.1001, "estimate {} outside {}..{}", e.bpm, lo, hi);
                    ck!(e.confidence >= 0.0 && (k == 1 || e.confidence <= 4.2103), "confidence {}", e.confidence);
                    ck!(e.method_agreement >= 1, "agreement {}", e.method_agreement);
                }
            }
        }
    }
    // tempogram estimates
    if g.chance(30) {
        use pd::tempogram as tg;
        let (nf, nb, per) = (g.r(0, 90), g.r(1, 9), g.r(3, 25));
        let fr: Vec<Vec<f32>> = (0..nf).map(|i| (0..nb).map(|_| if i % per == 0 { 1.0 + g.unit() } else if g.chance(10) { g.unit() } else { 0.01 }).collect()).collect();
        let (sr, hop) = (g.pick(&[8000u32, 22050, 44100]), g.pick(&[256u32, 512, 1024]));
        g.note("frames, rate, hop", &(&fr, sr, hop));
        let w = |g: &mut Gen| g.pick(&[0.0f32, 1.0, 0.35, 2.0]);
        let cfg = tg::TempogramBandFusionConfig {
            enabled: g.chance(60), low_max_hz: 200.0, mid_max_hz: 2000.0, high_max_hz: g.pick(&[0.0f32, 8000.0]), w_full: w(g), w_low: w(g), w_mid: w(g), w_high: w(g), seed_only: g.chance(50),
            support_threshold: g.unit(), consensus_bonus: g.pick(&[0.0f32, 0.1, 3.0, 1000.0]), enable_mel: g.chance(30), mel_n_mels: g.r(1, 8), mel_fmin_hz: 30.0, mel_fmax_hz: 8000.0, mel_max_filter_bins: 2, w_mel: w(g),
            novelty_w_spectral: 0.3, novelty_w_energy: 0.35, novelty_w_hfc: 0.35, novelty_local_mean_window: 16, novelty_smooth_window: 5, debug_track_id: None, debug_gt_bpm: None, debug_top_n: 5, superflux_max_filter_bins: 4,
        };
        g.note("bands", &cfg);
        let k = g.r(0, 12);
        let (lo, hi) = if lo > 0.0 && hi > lo { (lo, hi) } else { (60.0, 180.0) };
        let rs = if res > 0.0 { res } else { 1.0 };
        let one = |e: &pd::BpmEstimate| -> R {
            ck!(e.bpm >= lo && e.bpm <= hi, "tempogram estimate {} outside {}..{}", e.bpm, lo, hi);
            ck!(e.confidence >= 0.0 && e.confidence <= 1.0, "tempogram confidence {}", e.confidence);
            ck!(e.method_agreement <= 2, "tempogram agreement {}", e.method_agreement);
            Ok(())
        };
        for r in [tg::estimate_bpm_tempogram(&fr, sr, hop, lo, hi, rs), tg::estimate_bpm_tempogram_band_fusion(&fr, sr, hop, lo, hi, rs, cfg.clone())] { if let Ok(e) = r { one(&e)?; } }
        for r in [tg::estimate_bpm_tempogram_with_candidates(&fr, sr, hop, lo, hi, rs, k), tg::estimate_bpm_tempogram_with_candidates_band_fusion(&fr, sr, hop, lo, hi, rs, k, cfg)] {
            if let Ok((e, c)) = r {
                one(&e)?;
                ck!(c.len() <= k, "{} tempogram candidates, {} asked for", c.len(), k);
                for x in &c { ck!(x.bpm >= lo && x.bpm <= hi, "tempogram candidate {} outside {}..{}", x.bpm, lo, hi); }
            }
        }
        if g.chance(8) {
            let (n, fs) = (g.r(0, 24000), g.pick(&[256usize, 512, 1024]));
            let per = g.r(2000, 9000);
            let s: Vec<f32> = (0..n).map(|i| if i % per < 60 { 0.8 } else if i % 97 == 0 { 0.1 } else { 0.0 }).collect();
            let ws: Vec<f32> = (0..6).map(|_| g.pick(&[1.0f32, 0.5, 0.25, 0.0, 2.0, -1.0, 0.9])).collect();
            let human = g.chance(50);
            g.note("clicks: length, period, rate, frame, weights", &(n, per, sr, fs, &ws, human));
            if let Ok((e, _)) = pd::multi_resolution::multi_resolution_tempogram_from_samples(&s, sr, fs, lo, hi, rs, k, ws[0], ws[1], ws[2], ws[3], ws[4], ws[5], human, None) {
                let t = rs.max(2.0) * 1.001;
                ck!(e.bpm >= lo - t && e.bpm <= hi + t, "multi-resolution estimate {} far outside {}..{}", e.bpm, lo, hi);
                ck!(e.confidence >= 0.0 && e.confidence <= 1.0, "multi-resolution confidence {}", e.confidence);
                ck!(e.method_agreement <= 3, "multi-resolution agreement {}", e.method_agreement);
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- P12
fn p12(g: &mut Gen) -> R {
    use stratum_dsp::features::period as pd;
    let (lo, hi) = if g.chance(15) { (g.pick(&[0.0f32, -1.0, 60.0, 200.0]), g.pick(&[0.0f32, -5.0, 60.0, 100.0])) } else { let a = g.f(20.0, 120.0); (a, a + g.f(0.5, 180.0)) };
    let (sr, hop) = (if g.chance(6) { g.pick(&[0u32, 3, 64]) } else { g.pick(&[8000u32, 22050, 44100, 44100, 48000]) }, g.pick(&[0usize, 64, 512, 512, 1024]));
    let bad = lo <= 0.0 || hi <= 0.0 || lo >= hi || sr == 0;
    g.note("rate, hop, lowest, highest tempo", &(sr, hop, lo, hi));
    // onsets
    let n = if sr < 100 { g.r(0, 2) } else { g.r(0, 12) };
    let step = if sr < 100 { 40 } else { g.r(1, 30000) };
    let mut x = g.r(0, 3000);
    let mut o: Vec<usize> = (0..n).map(|_| { let y = x; x += if sr < 100 || g.chance(70) { step } else { g.r(0, 40000) }; y }).collect();
    if n > 1 && g.chance(20) { o.swap(0, n - 1); }
    g.note("onsets", &o);
    g.nontrivial = n > 2 && !bad;
    let order = |v: &[pd::BpmCandidate], top: f32, low: f32, who: &str| -> R {
        for c in v { ck!(c.bpm >= lo && c.bpm <= top, "{}: tempo {} outside {}..{}", who, c.bpm, lo, top); ck!(c.confidence >= low && c.confidence <= 1.0, "{}: confidence {}", who, c.confidence); }
        for w in v.windows(2) { ck!(w[0].confidence >= w[1].confidence, "{}: confidences {} before {}", who, w[0].confidence, w[1].confidence); }
        Ok(())
    };
    let abad = bad || hop == 0 || n == 0 || n > 1 && o.iter().all(|&x| x / hop == 0);
    match pd::autocorrelation::estimate_bpm_from_autocorrelation(&o, sr, hop, lo, hi) {
        Err(e) => ck!(abad, "autocorrelation error {:?}", e),
        Ok(v) => { ck!(!abad, "autocorrelation accepted"); order(&v, hi, 0.0, "autocorrelation")?; }
    }
    let res = g.pick(&[1.0f32, 0.5, 2.0, 7.3, 0.0, -1.0]);
    g.note("resolution", &res);
    match pd::comb_filter::estimate_bpm_from_comb_filter(&o, sr, hop, lo, hi, res) {
        Err(e) => ck!(bad || n == 0 || res <= 0.0 || sr < 64, "comb filter error {:?}", e),
        Ok(v) => { ck!(!(bad || n == 0 || res <= 0.0), "comb filter accepted"); order(&v, hi + 1e-10, 0.1, "comb filter")?; }
    }
    let rr = g.pick(&[0.0f32, 1.0, 2.0, 5.0]);
    g.note("refinement", &rr);
    if let Ok(v) = pd::comb_filter::coarse_to_fine_search(&o, sr, hop, lo, hi, rr) { ck!(!(bad || n == 0), "coarse-to-fine accepted"); order(&v, hi + 1e-10, 0.1, "coarse-to-fine")?; }
    // tempograms
    let m = g.r(0, 80);
    let per = g.r(1, 20);
    let nov: Vec<f32> = (0..m).map(|i| if g.chance(20) { g.unit() } else if i % per == 0 { 1.0 } else { 0.0 }).collect();
    g.note("novelty", &nov);
    let tbad = m == 0 || sr == 0 || hop == 0 || lo <= 0.0 || hi <= lo;
    let tg = |v: &[(f32, f32)], who: &str| -> R {
        for c in v { ck!(c.0 >= lo && c.0 <= hi, "{}: tempo {} outside {}..{}", who, c.0, lo, hi); ck!(c.1 >= 0.0 && c.1.is_finite(), "{}: strength {}", who, c.1); }
        for w in v.windows(2) { ck!(w[0].1 >= w[1].1, "{}: strength {} before {}", who, w[0].1, w[1].1); }
        Ok(())
    };
    match pd::tempogram_fft::fft_tempogram(&nov, sr, hop as u32, lo, hi) {
        Err(e) => ck!(tbad, "Fourier tempogram error {:?}", e),
        Ok(v) => {
            ck!(!tbad, "Fourier tempogram accepted");
            tg(&v, "Fourier tempogram")?;
            let b = pd::tempogram_fft::find_best_bpm_fft(&v);
            ck!(b.is_some() == !v.is_empty(), "best of {} entries: {}", v.len(), b.is_some());
            if let Some(b) = b { ck!(b.bpm == v[0].0 && b.power == v[0].1 && (0.0..=1.0).contains(&b.confidence), "best tempo {} {} {} of {:?}", b.bpm, b.power, b.confidence, v[0]); }
        }
    }
    match pd::tempogram_autocorr::autocorrelation_tempogram(&nov, sr, hop as u32, lo, hi, res) {
        Err(e) => ck!(tbad || res <= 0.0, "autocorrelation tempogram error {:?}", e),
        Ok(v) => {
            ck!(!(tbad || res <= 0.0), "autocorrelation tempogram accepted");
            tg(&v, "autocorrelation tempogram")?;
            let b = pd::tempogram_autocorr::find_best_bpm_autocorr(&v);
            ck!(b.is_some() == !v.is_empty(), "best of {} entries: {}", v.len(), b.is_some());
            if let Some(b) = b { ck!(b.bpm == v[0].0 && b.strength == v[0].1 && (0.0..=1.0).contains(&b.confidence), "best tempo {} {} {} of {:?}", b.bpm, b.strength, b.confidence, v[0]); }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- P22
fn p22(g: &mut Gen) -> R {
    use stratum_dsp::{analyze_audio, analysis::result::AnalysisFlag, AnalysisConfig};
    let sr = if g.chance(4) { 0u32 } else { g.pick(&[2048u32, 4000, 8000]) };
    let n = if g.chance(4) { 0 } else { g.r(1, (sr as usize).max(2000) * 5) };
    let per = g.r(300, 6000);
    let (lead, amp, f) = (g.r(0, n / 3), g.pick(&[1.0f32, 0.5, 0.01, 30.0, 0.0]), g.f(0.01, 0.4));
    let (ca, ta) = (g.unit(), g.pick(&[0.0f32, 0.1, 0.5]));
    let jit = g.r(0, 200);
    let s: Vec<f32> = (0..n).map(|i| if i < lead { 0.0 } else { let k = (i + (i / per * 37) % (jit + 1)) % per; amp * (if k < 80 { ca * (1.0 - k as f32 / 80.0) * if k % 2 == 0 { 1.0 } else { -1.0 } } else { 0.0 } + ta * (i as f32 * f).sin()) }).collect();
    let lo = g.f(30.0, 150.0);
    let mut c = AnalysisConfig {
        frame_size: g.pick(&[256usize, 512, 1024, 2048]), hop_size: g.pick(&[64usize, 128, 256, 512]),
        enable_normalization: g.chance(70), enable_silence_trimming: g.chance(70), enable_onset_consensus: g.chance(60),
        force_legacy_bpm: g.chance(30), enable_bpm_fusion: g.chance(50), enable_legacy_bpm_guardrails: g.chance(50),
        enable_tempogram_multi_resolution: g.chance(40), enable_tempogram_percussive_fallback: g.chance(20), enable_tempogram_band_fusion: g.chance(30),
        emit_tempogram_candidates: g.chance(50), tempogram_candidates_top_n: g.r(0, 12),
        min_bpm: if g.chance(60) { 60.0 } else { lo }, max_bpm: if g.chance(60) { 180.0 } else { lo + g.f(-10.0, 150.0) }, bpm_resolution: g.pick(&[1.0f32, 0.5, 2.0, 3.0]),
        enable_key_beat_synchronous: g.chance(20), enable_key_log_frequency: g.chance(20), enable_key_hpcp: g.chance(20), enable_key_stft_override: g.chance(30),
        enable_key_hpss_harmonic: g.chance(20), enable_key_ensemble: g.chance(20), enable_key_segment_voting: g.chance(20), enable_hpss_onsets: false,
        ..Default::default()
    };
    if g.chance(30) { c.legacy_bpm_conf_mul_preferred = g.pick(&[0.0f32, 1.0, 4.0, f32::NAN, -1.0]); c.legacy_bpm_conf_mul_soft = g.pick(&[0.0f32, 1.0, 4.0]); }
    if g.chance(15) { c.enable_key_segment_voting = true; c.key_segment_len_frames = 120; }
    g.note("samples, rate, lead, clicks every, level, tone", &(n, sr, lead, per, jit, amp, ca, ta, f));
    g.note("config", &format!("{:?}", c));
    let tol = c.bpm_resolution.max(2.1) * 1.001 + 1e-4;
    let (mn, mx, trim, emit, topn) = (c.min_bpm, c.max_bpm, c.enable_silence_trimming, c.emit_tempogram_candidates, c.tempogram_candidates_top_n);
    let multi = c.enable_tempogram_multi_resolution;
    let force = c.force_legacy_bpm;
    let v = match analyze_audio(&s, sr, c) { Err(_) => return Ok(()), Ok(v) => v };
    g.nontrivial = v.bpm > 0.0;
    ck!(n > 0 && sr > 0, "empty buffer or zero rate accepted");
    ck!(s.iter().any(|&x| x != 0.0) || !trim, "silence accepted");
    let m = &v.metadata;
    ck!(m.sample_rate == sr, "sample rate {} for {}", m.sample_rate, sr);
    let full = n as f32 / sr as f32;
    ck!(m.duration_seconds > 0.0 && m.duration_seconds <= full && (trim || m.duration_seconds == full), "duration {} of {}", m.duration_seconds, full);
    ck!(v.bpm == 0.0 || v.bpm >= mn - tol && v.bpm <= mx + tol, "tempo {} for {}..{}", v.bpm, mn, mx);
    ck!((0.0..=1.0).contains(&v.bpm_confidence), "tempo confidence {}", v.bpm_confidence);
    ck!(v.bpm != 0.0 || v.bpm_confidence == 0.0, "tempo confidence {} without a tempo", v.bpm_confidence);
    ck!((0.0..=1.0).contains(&v.grid_stability), "grid stability {}", v.grid_stability);
    let b = &v.beat_grid;
    ck!(b.beats.windows(2).all(|w| w[0] < w[1]), "beats out of order {:?}", b.beats);
    ck!(b.downbeats.windows(2).all(|w| w[0] < w[1]) && b.downbeats.iter().all(|d| b.beats.contains(d)) && b.bars == b.downbeats, "downbeats {:?} bars {:?} beats {:?}", b.downbeats, b.bars, b.beats);
    ck!(v.bpm > 0.0 || b.beats.is_empty() && v.grid_stability == 0.0, "{} beats without a tempo", b.beats.len());
    ck!(m.onset_method_consensus == 0.0 || m.onset_method_consensus == 1.0, "onset consensus {}", m.onset_method_consensus);
    let weak = m.flags.iter().filter(|f| matches!(f, AnalysisFlag::WeakTonality)).count();
    ck!(weak == (v.key_clarity < 0.2) as usize && m.flags.len() == weak, "flags {:?} at clarity {}", m.flags, v.key_clarity);
    let due = (v.bpm == 0.0) as usize + (v.grid_stability < 0.5) as usize + (v.key_confidence < 0.3) as usize + (v.key_clarity < 0.2) as usize;
    ck!(m.confidence_warnings.len() == due, "{} warnings, {} due: {:?}", m.confidence_warnings.len(), due, m.confidence_warnings);
    ck!((v.bpm == 0.0) == m.confidence_warnings.iter().any(|w| w.contains("BPM")), "tempo {} and warnings {:?}", v.bpm, m.confidence_warnings);
    if let Some(t) = &m.tempogram_candidates {
        ck!(emit && !force, "tempogram candidates not asked for");
        ck!(multi || t.len() <= topn, "{} tempogram candidates, {} asked for", t.len(), topn);
    }
    Ok(())
}
