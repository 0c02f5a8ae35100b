"""Closed options: parameters whose value is compared with words (shared by P12 and tools/gen_options.py)."""
from analysis.paths import Rejects, NUM, FRESH, const_of, hk

# parameters for which an unknown word is not an error, with the reason
OPEN = {
    ('bubble_stats.mfp_from_point', 'point'): 'coordinates; the word only stands in for them',
    ('mfp_np.mfp3d', 'point'): 'coordinates; the word only stands in for them',
    ('mfp_np.mfp2d', 'point'): 'coordinates; the word only stands in for them',
    ('helper_functions.save_data', 'filetype'): 'only consulted when the file name does not tell (P10)',
    ('power_spect_fast.power_spect_2d', 'binning'): 'not used with explicit bins; the other case is decided by its definition below',
    ('power_spectrum.power_spectrum_2d', 'binning'): 'not used with explicit bins; the other case is decided by its definition below',
    ('radio_telescope_noise.signal_window', 'method'): 'documented: None is returned for methods that are not implemented',
    ('source_file.SourceFile.__init__', 'mass'): 'checked when the file is read',
    ('topology.EulerCharacteristic', 'speed_up'): 'documented: any back-end that is not available falls back to python, which computes the same',
    ('topology.betti1', 'speed_up'): 'documented: any back-end that is not available falls back to python, which computes the same',
}


def default_facts(f, p):
    out = set()
    for q in f.user_params:
        if q == p or q not in f.defaults:
            continue
        ok, c = const_of(f.defaults[q])
        if ok and (c is None or isinstance(c, (str, bool))):
            out.add((q, ('in', frozenset([hk(c)]))))
        elif ok and isinstance(c, int):
            out.add((q, NUM))
    return frozenset(out)


class Options:
    def __init__(self, P):
        self.P = P
        self.R = Rejects(P)

    def level(self, f, p):
        """(level, words) level: 'always', 'default' (with the other options at their defaults) or 'open'."""
        fr = frozenset([p])
        r = self.R(f, fr, frozenset())
        words = set(self.R.seen.get((f, fr, frozenset()), set()))
        if r:
            return 'always', words
        d = default_facts(f, p)
        r = self.R(f, fr, d)
        words |= self.R.seen.get((f, fr, d), set())
        return ('default' if r else 'open'), words

    def accepted(self, f, p, word, level='always'):
        given = {(p, ('in', frozenset([hk(word)])))}
        return not self.R(f, frozenset(), frozenset(given)) or level == 'default' and not self.R(f, frozenset(), default_facts(f, p) | given)
