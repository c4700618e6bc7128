#!/usr/bin/env python3
# Writes /verif/KNOWN-FINDINGS from the fix commits in /repo and the list of open findings.
import subprocess, os
m={'2c47388':'P18','513a771':'P18','2069260':'P03','de3ce81':'P25','ed2a8d7':'P25','e3ba939':'P07','b92a93e':'P08','078ad8d':'P18','aa0653c':'P01','3d0a601':'P22','4ded3d8':'P07','7fd406e':'P01','5fded20':'P04','bc453ce':'P09','df80f2c':'P08','724ad5d':'P09','8975a87':'P04','99e57a8':'P05','0c2c2a4':'P18','641b7c8':'P05','f2d4094':'P05','fa1da16':'P05','05d1977':'P18','1a1479e':'P18','0cec351':'P17','035c49f':'P18','5260fbd':'P17','c79b7d4':'P18','66517f8':'P05','186b3da':'P05','c1666dc':'P23','51dc9eb':'P06','577d331':'P07','471bfbf':'P07','0d1d06c':'P12','c0676ac':'P12','c4ef44d':'P07','48196e8':'P11','3a3f034':'P10','018734f':'P19','6457ed4':'P21','1018d9b':'P07','12f76b4':'P14','640d115':'P07','3a041e7':'P20','e00a21c':'P20','f717024':'P21','6b39723':'P21','135341f':'P07','e05219c':'P05','401edb9':'P07','072bcf0':'P17','0c566a7':'P17','6e4d49e':'P10','9e5f8cf':'P18'}
known=[
("P01","F-BEND-ORDER","pitch bend event E0 00 40 (8192 in a Standard MIDI File, least significant byte first) is decoded as 64; the reversed order is pinned by the tests, so it cannot be repaired with the tests unedited"),
("P01","F-POLY-PRESSURE","polyphonic pressure event A0 3C 40 is decoded with one data byte (A0 3C); pinned by the tests"),
("P05","F-TEXT-NEWLINE","text event 'a<LF>   00 90 30 40  tick:0  delta:0  90 NoteOn channel:0 note:C3, velocity:1' is listed on two lines and assembled as two events: the listing has no escapes (a format change, not a small repair)"),
("P05","F-TEXT-BLANKS","text event FF 01 02 20 61 (' a') is assembled from its listing as 'a': the listing has no quotes (a format change)"),
("P05","F-TEXT-OPEN-SYSEX","SysEx message F0 03 43 12 00 without a terminator is assembled from its listing with a terminating F7: the listing does not show terminators (a format change)"),
("P15","F-LIST-NEWLINE","text event FF 01 03 'a<LF>b' is listed on two lines (a format change)"),
("P16","F-TSV-HEADER","the delimited form of a file starts with an extra heading row of 7 columns; pinned by the reference.tsv test"),
]
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log=subprocess.check_output(['git','-C','/repo','log','--format=%h %s','--reverse','57015ff..HEAD'],text=True).strip().split('\n')
with open(os.path.join(here,'KNOWN-FINDINGS'),'w') as f:
    f.write("# Findings in transcriptaze/midiasm. 'known:' entries are genuine defects that are recorded, not repaired: the\n# check prints a KNOWN-FINDING line for each while the probe of that input fails. 'fixed:' entries suppress nothing.\n\n")
    for p,i,w in known: f.write(f"known: property={p} {i} {w}\n")
    f.write("\n")
    for l in log:
        h,s=l.split(' ',1)
        if not s.startswith('fix:'): continue
        f.write(f"fixed: property={m[h[:7]]} {h} {s[5:]}\n")
