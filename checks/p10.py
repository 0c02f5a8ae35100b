"""P10: what the package writes it reads back unchanged."""
from analysis.report import Result
from .common import definitions, TECHNIQUE as T0, ASSUMPTIONS as A0
from . import harness

MINIMUM = 5
TECHNIQUE = T0 + '; writer and reader of each format are composed in the same normal form (files as sequences of typed blocks, cell order tracked) and must give back what was written'
ASSUMPTIONS = A0 + ['numpy.fromfile/tofile, pickle, json, yaml and astropy.io.fits store and return what they are given']
D3 = {'data': 'arr3', 'data4': 'vec', 'hdr': 'obj', 'd': 'obj'}
CUBE = dict(D3, data='cube')
BO = [{'bits': b, 'order': o} for b in (32, 64) for o in ('C', 'F')]
FB = [{'old_format': o, 'binary_format': b} for o in (True, False) for b in (True, False)]
TRIPS = [('cbin', D3, BO), ('cbin_default', D3, [{}]), ('raw', CUBE, BO), ('raw_default', CUBE, [{}]), ('fits', D3, [{}]), ('fits_header', D3, [{}]),
         ('savedata_cbin', D3, [{}]), ('savedata_cbin_default', D3, [{}]), ('savedata_bin', CUBE, [{}]), ('savedata_bin_default', CUBE, [{}]), ('savedata_fits', D3, [{}]),
         ('savedata_npy', D3, [{}]), ('savedata_pkl', D3, [{}]), ('density', D3, [{}]), ('density_cgs', D3, [{}]), ('density_from_cgs', D3, [{}]), ('clumping', D3, [{}]),
         ('xfrac', D3, FB), ('xfrac_neutral', D3, FB), ('velocity', D3, [{}]), ('mesh_cbin', D3, [{}]), ('mesh_density', D3, [{}]), ('mesh_xfrac', D3, [{}]),
         ('type_cbin', D3, [{}]), ('type_xfrac', D3, [{}]), ('type_density', D3, [{}]), ('written_values_kept', D3, [{}]),
         ('dict_pickle', D3, [{}]), ('dict_pkl', D3, [{}]), ('dict_json', D3, [{}]), ('dict_yaml', D3, [{}])]


def run(tier):
    R = Result()
    R.rules['round-trip'] = 'reading with the matching reader gives the values, shape and element type that were written'
    P = harness.project('files')
    for name, types, cases in TRIPS:
        g = [f for f in P.modules['vt_files'].all_funcs if f.name == 'got_' + name]
        if g and 'filename' in g[0].params:
            cases = [dict(c, filename='run7/7.305box.dat') for c in cases]
        harness.one(P, 'files', name, types, cases, 'round-trip', R, io=True)
    R.counts['round_trips'] = len(TRIPS)
    return definitions('P10', R)
