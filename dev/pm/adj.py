import re,sys
R=sys.argv[1]
p='/tmp/pm/w/pact_matching/'
s=open(R+'/rust/pact_matching/Cargo.toml').read()
s=re.sub(r'\nntest = .*','',s); s=re.sub(r'\ngoogletest = .*','',s); s=re.sub(r'\nquickcheck = .*','',s)
s=s.replace('default = ["datetime", "xml", "plugins", "multipart", "form_urlencoded"]','default = ["datetime", "xml", "form_urlencoded"]')
s+='\n[patch.crates-io]\npact_models = { path = "%s/rust/pact_models" }\n'%R
import os
for d in sorted(os.listdir('/verif/stubs')): s+=f'{d} = {{ path = "/verif/stubs/{d}" }}\n'
s+='\n[workspace]\n[profile.dev]\ndebug=0\n'
open(p+'Cargo.toml','w').write(s)
f=p+'src/engine/value_resolvers.rs'; t=open(f).read()
t=t.replace('  use googletest::prelude::*;\n','')
t=re.sub(r'  #\[googletest::test\]\n.*?\n  }\n','',t,flags=re.S)
open(f,'w').write(t)
f=p+'src/xml.rs'; t=open(f).read()
t=t.replace('  use ntest::test_case;\n','')
def fix(m):
    cases=re.findall(r'#\[test_case\((.*)\)\]',m.group(1))
    n=m.group(2)
    return '  #[test]\n  fn '+n+'() {\n'+''.join(f'    {n}_c({c});\n' for c in cases)+'  }\n  fn '+n+"_c(expected: &'static str, actual: &'static str)"
t=re.sub(r'((?:  #\[test_case\([^\n]*\)\]\n)+)  fn (\w+)\(expected: &str, actual: &str\)',fix,t)
open(f,'w').write(t)
