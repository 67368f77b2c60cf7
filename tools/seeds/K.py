SEEDS = {
'K01-octave': dict(property='K01', edits=[('quickly/key.py', "        octave = lambda p: -1 if p > 6 else 1 if p < 0 else 0", "        octave = lambda p: -1 if p > 6.5 else 1 if p < 0 else 0")], demo='''
from quickly.key import KeySignature
for note, alter in ((4, .5), (0, .5), (0, 0), (3, .5)):
    sig = KeySignature(note, alter)
    for key in range(48, 84):
        assert sig.pitch(key).to_midi() == key, (note, alter, key)
''', needs='a key with a b sharp', breaks='the octave of the b sharp is too high'),
'K01-many-fifths': dict(property='K01', edits=[('quickly/key.py', "    for _ in range(d * sf):\n        doct, new_note = divmod(note + d * 4, l)\n        alter += d * 3.5 - doct * 6 - scale[new_note] + scale[note]\n",
"    for _ in range(d * sf):\n        new_note = (note + d * 4) % l\n        alter += d * 3.5 - (d * 6 if (new_note < note) == (d > 0) else 0) - scale[new_note] + scale[note]\n        alter = max(-1, min(1, alter))\n")], demo='''
from quickly.key import tonic, accidentals
for sf in range(-18, 19):
    note, alter = tonic(sf)
    assert sum(accidentals(note, alter)) * 2 == sf, sf
''', needs='a key with more than fourteen sharps or flats', breaks='the tonic is limited to double sharps and flats'),
}
