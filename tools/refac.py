import sys,subprocess,re
f='/repo/marsh/schema/template/structured.py'
orig=open(f).read()
i=orig.index('    def unmarshal('); j=orig.index('    def construct(')
body=orig[i:j]
R={}
R['rename']=re.sub(r'\bname\b','param',re.sub(r'\bschema\b(?=[ .)])','sub',re.sub(r'\bkwargs\b','keywords',re.sub(r'\bargs\b(?!=)','posargs',re.sub(r'\belement_dict\b','entries',body)))))
R['rename']=R['rename'].replace('default_posargs','default_args').replace('keywords=default_kwargs','kwargs=default_kwargs').replace('posargs=default','args=default')
R['noop']=body.replace('        element_list: List[Any] = []\n','        _ = 0\n        element_list: List[Any] = []\n')
R['reorder']=body.replace('''        element_list: List[Any] = []
        element_dict: Dict[str, Any] = {}
        args: List = []
        kwargs: Dict[str, Any] = {}
''','''        kwargs: Dict[str, Any] = {}
        args: List = []
        element_dict: Dict[str, Any] = {}
        element_list: List[Any] = []
''')
R['helper']=body.replace('''                        if name not in kwargs:
                            kwargs[name] = schema.unmarshal(
                                element_dict.pop(
                                    name,
                                    marsh.MISSING,
                                ),
                            )
''','''                        if name not in kwargs:
                            self._bind(name, schema, element_dict, kwargs)
''')+'''    def _bind(self, name, schema, entries, kwargs):
        kwargs[name] = schema.unmarshal(entries.pop(name, marsh.MISSING))

'''
R['nested']=body.replace("element_dict.pop(\n                                    name,\n                                    marsh.MISSING,\n                                ),","(element_dict.pop(name) if name in element_dict else marsh.MISSING),")
R['comp']=body.replace('''                    for i in range(len(element_list)):
                        with marsh.errors.prepend(i):
                            args.append(schema.unmarshal(element_list.pop(0)))
''','''                    i = 0
                    for item in element_list:
                        with marsh.errors.prepend(i):
                            args.append(schema.unmarshal(item))
                        i += 1
                    element_list = []
''')
R['elseif']=body.replace('''        for key in element_dict:
            raise''','''        if element_dict:
            key = next(iter(element_dict))
            raise''')
names=sys.argv[2:] or list(R)
for n in names:
    if R[n]==body: print(n,'UNCHANGED'); continue
    open(f,'w').write(orig.replace(body,R[n]))
    try:
        t=subprocess.run(['/opt/venv/bin/python','-m','pytest','-q','-x','/repo/tests'],capture_output=True,text=True,cwd='/repo').stdout[-100:]
        o=subprocess.run(['./check.sh',sys.argv[1]],capture_output=True,text=True,cwd='/verif').stdout
        print(n,t.strip().split('\n')[-1],'\n   ',o[-600:])
    finally: open(f,'w').write(orig)
