import sys, json, subprocess
sys.path.insert(0,'/verif')
from pbt import common
F=[
("C03",'<math><mfenced open="{" close="}"><mi>x</mi></mfenced></math>',"brace fences are written unescaped after \\left and \\right (pinned by two existing tests)"),
("C03",'<math><mfenced open="{" close=""><mtable><mtr><mtd><mi>x</mi></mtd></mtr></mtable></mfenced></math>',"a fenced matrix with one empty fence has \\left or \\right without delimiter (pinned by an existing test)"),
("C03",'<math><mmultiscripts><mi>X</mi><mn>1</mn><mn>2</mn><mprescripts/><mn>3</mn><mn>4</mn></mmultiscripts></math>',"prescripts are attached to an escaped underscore instead of an empty group (pinned by existing tests)"),
("C03",'<math><mtable><mtr><mtd><mi>a</mi></mtd><mtd><mi>b</mi></mtd></mtr></mtable></math>',"a table outside of a fence has & and \\\\ outside of an environment (pinned by existing tests)"),
("C03",'<math><menclose notation="left"><mi>x</mi></menclose></math>',"a left enclosure opens \\left without \\right (pinned by an existing test)"),
("C03",'<math><menclose notation="right"><mi>x</mi></menclose></math>',"a right enclosure closes with \\right without \\left (pinned by an existing test)"),
("C03",'<math><menclose notation="madruwb"><mi>x</mi></menclose></math>',"a madruwb enclosure closes with \\right without \\left (pinned by an existing test)"),
("C03",'<math><mfenced separators="&amp;"><mi>x</mi><mi>y</mi></mfenced></math>',"a separator or fence that is special to LaTeX is written unescaped"),
("C09",'<math><mmultiscripts><mi>X</mi><mn>1</mn><mn>2</mn><mprescripts/><mn>3</mn><mn>4</mn></mmultiscripts></math>',"prescripts are attached to an escaped underscore instead of an empty group (pinned by existing tests)"),
("C13",'<math><mo>⟦</mo></math>',"a white square bracket becomes the start of inline math (pinned by an existing test)"),
("C13",'<math><mo>⟧</mo></math>',"a white square bracket becomes the end of inline math (pinned by an existing test)"),
("C13",'<math><mo>⋊</mo></math>',"left and right semidirect product are exchanged (pinned by an existing test)"),
("C13",'<math><mo>⋉</mo></math>',"left and right semidirect product are exchanged (pinned by an existing test)"),
("C13",'<math><mo>”</mo></math>',"a closing quote becomes the text accent \\\" (pinned by an existing test)"),
("C13",'<math><mi>त</mi></math>',"the character is rendered as a blank (pinned by an existing test)"),
("C13",'<math><mi>ፈ</mi></math>',"the character is rendered as a blank (pinned by an existing test)"),
("C13",'<math><mo>˘</mo></math>',"the character is rendered as a blank (pinned by an existing test)"),
("C13",'<math><mi>Ν</mi></math>',"the Greek capital nu becomes the small one (pinned by an existing test)"),
("C01",'<math><mi>त</mi></math>',"the character is rendered as a blank (pinned by an existing test)"),
]
FIX={
"c7af435":"C16","f6a3c45":"C16","a1cde26":"C05","3a212dc":"C21","abadbf2":"C21","0237d2d":"C13","5430095":"C15","e10f688":"C04","1493bc6":"C08","44410f8":"C09","173b3ac":"C11",
"fff09a6":"C02","e35b801":"C03","0235892":"C05","c6fe12c":"C06","c7ebb02":"C07","a01babd":"C07","0b3fc8f":"C17","e8ee656":"C18","b61d868":"C13","e80e6b6":"C13","7c56f06":"C13","db27536":"C13",
"f44b07a":"C13","fa07faa":"C13","36c01d6":"C03","8f1e679":"C25","19f3846":"C17","7d769c6":"C18","719de4f":"C18","2c633e9":"C13","2085d31":"C19","0eecf1c":"C18","20458a8":"C23","959f35a":"C19"}
out=["# finding: recorded, not repaired; printed as KNOWN-FINDING while the input still gives that output\n","# fixed: repaired in /repo; suppresses nothing\n"]
for p,x,w in F:
    o=common.call(x); assert o.ok,(x,o)
    print(p,x[-70:],repr(o.value))
    out.append("finding: property=%s %s\n"%(p,json.dumps({"input":x,"output":o.value,"what":w},ensure_ascii=False)))
log=subprocess.run(["git","-C","/repo","log","--reverse","--format=%h %s"],capture_output=True,text=True).stdout.splitlines()
for l in log:
    h,s=l.split(" ",1)
    if s.startswith("fix: "):
        out.append("fixed: property=%s %s %s\n"%(FIX[h],h,s[5:]))
open('/verif/known_findings.txt','w',encoding='utf-8').write("".join(out))
