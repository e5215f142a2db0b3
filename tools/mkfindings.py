#!/usr/bin/env python3
"""Writes /verif/known-findings.txt from the fix commits in /repo."""
import subprocess
log=subprocess.run(['git','-C','/repo','log','--reverse','--format=%h\t%s','b2c2abd..HEAD'],capture_output=True,text=True).stdout.strip().split('\n')
m={
'3ab6b56':('C01,C02','Get {"a":{},"b":{"k":1}} at a,k gave 1 from another object'),
'ea69129':('C02','a path that goes on through a scalar resolved to something else'),
'7e9a345':('C02','index 0 of an empty array succeeded in some functions'),
'792649e':('C06','Insert before a last element with space before it damaged the array'),
'e452e95':('C05,C06','AddKeyValue, Add and Insert edited strings that look like containers'),
'8b24607':('C11','appending to a caller\'s path slice wrote to the array behind it'),
'8b6e6c9':('C10','AddKeyValueString and InsertString returned nil with an error'),
'3f2d647':('C13','sized integer writers used bases 32 and 64'),
'7b78021':('C13','strings such as "0x1F", "NaN" or "01" were written bare'),
'd277114':('C13','JO.StoreString did not write a string'),
'4cf1c72':('C18','IsObject was true for arrays'),
'8ab9b65':('C17','IsEmpty looked at some bytes only'),
'd9dba08':('C18','GetType of 1e999 was string'),
'98c23f4':('C17','GetMap below the root and Length of a single-element root were wrong'),
'cd82a09':('C02','a path into {} or [] did not fail as it should'),
'a25b693':('C16','iteration called back with an empty value for an empty container'),
'176db02':('C16','IterateKeyValue dropped the error of the last callback'),
'2c68e76':('C16','IterateKeyValue kept space around one-character values'),
'c1fcda3':('C17','GetValues and GetKeysValues invented a value for an empty object'),
'4c0720c':('C15,C20','space behind one-character values was kept'),
'0a15c36':('C15','[] was an error or one empty element for the typed array getters'),
'e76765b':('C15','typed array getters failed with space around a root array'),
'a3f2eb8':('C26','builders panicked or gave "]" for empty lists'),
'd3b7d29':('C26','MakeArrayFloat wrote something else than the numbers'),
'f6c4e57':('C25','Indent treated the end of "a\\\\" as inside the string'),
'00e8401':('C19','Walk went on after the callback asked it to stop'),
'50f7ebb':('C11,C27','Schemes shared key lists with callers and with their own saved keys'),
'3cfdbc0':('C28','CheckAbs of an empty object with an empty scheme'),
'4725b87':('C28','MutateJson turned strings into numbers or literals'),
'ed540f8':('C20','Parse dropped the element of [1]'),
'fd58df5':('C21','after Parser.Set old children still answered reads'),
'0ec6774':('C10,C21','a failing Parser.SetKey changed the document'),
'867a2d3':('C13,C21','Parser.SetString of "" and of strings ending in a quote'),
'2ac7280':('C21','Parser.AddKeyValue looked for the key in the wrong object'),
'34cfada':('C21','Parser.Add to an empty array'),
'5ac6f8b':('C21','Parser.Insert put the element at another index'),
'1e3a7e2':('C21','after Parser.Delete later elements kept their old index'),
'f7e250e':('C21','(left over by the repairs above: the node functions that kept the stale tree)'),
'81fbfb9':('C29','empty and all-space documents panicked'),
'433e7d0':('C29','Indent panicked on too many closing braces'),
'ddb80c0':('C29','a lone quote as a value panicked'),
'4305370':('C29','AddKeyValue, Add and Insert panicked on empty documents'),
'2138188':('C29','Parse panicked on braces that do not match'),
'5068c2b':('C29','core read behind the end of a document that breaks off'),
'fe132a9':('C29','GetKeys panicked on a colon without a key'),
'1da5833':('C29','IterateKeyValue panicked on members without a value'),
'd7f6df5':('C30','a colon without a key was found as the empty key'),
'f7bd27a':('C29,C30','edits at the end of a document that breaks off panicked or damaged it'),
'5322c99':('C30','Delete removed from the start of a document that breaks off'),
'70a08b2':('C17','IsEmpty was true for the string "{}"'),
'fac9f98':('C13,C26','MakeArrayString(["[a]"]) gave malformed [[a]]'),
}
out=["# Defects of ecoshub/jin found by the checks. 'fixed:' entries suppress nothing.","# No defect is outstanding: there is no KNOWN-FINDING entry."]
for l in log:
    h,s=l.split('\t')
    p,w=m[h]
    for q in p.split(','):
        out.append(f'fixed: property={q} {h} {w}')
open('/verif/known-findings.txt','w').write('\n'.join(out)+'\n')
