SEEDS += [
dict(id='C11-nested-key-order', property='C11', edits=[('zygo/jsonmsgp.go','''		if foundzKeyOrder {
			err = SetHashKeyOrder(hash, keyOrd)
''','''		if foundzKeyOrder && depth == 0 {
			err = SetHashKeyOrder(hash, keyOrd)
''')],
 needs='a hash inside an array or another hash whose keys are not in alphabetical order',
 breaks='the field order of nested hashes is lost on decoding',
 cases='''(def h (hash b:1 a:(hash z:1 y:2))) (str (hget (unjson (json h)) %a)) => "{z:1 y:2}"
(str (aget (unmsgpack (msgpack [(hash q:1 c:"x")])) 0)) => "{q:1 c:\\"x\\"}"
(str (unjson (json (hash b:1 a:2)))) => "{b:1 a:2}"'''),
dict(id='C17-deref-same-name', property='C17', edits=[('zygo/functions.go','''				if tt == pt && tt.RegisteredName == pt.RegisteredName {
''','''				if tt.RegisteredName == pt.RegisteredName {
''')],
 needs='a pointer to a record made before its struct type was declared anew, and a record of the new declaration assigned through it',
 breaks='the older instance gets the fields and types of the new declaration',
 cases='''(struct Bug1 [(field id: int64)]) ;; (def a (Bug1 id:1)) (def p (& a)) ;; (struct Bug1 [(field id: string)]) ;; (derefSet p (Bug1 id:"x")) => * | * | * | !'''),
dict(id='C17-same-type-fast-path', property='C17', edits=[('zygo/hashutils.go','''	err := hash.TypeCheckField(key, val)
	if err != nil {
''','''	var err error
	if old, e := hash.HashGet(nil, key); e != nil || old == SexpNull || old.Type() != val.Type() {
		err = hash.TypeCheckField(key, val)
	}
	if err != nil {
''')],
 needs='a slice field that is overwritten with an array whose first element has the right type and a later one has not',
 breaks='a slice field holds an element of another type',
 cases='''(struct Bug3 [(field s: ([] int64))]) ;; (def c (Bug3 s:[1 2])) ;; (hset c %s [3 4]) ;; (hset c %s [1 "a"]) => * | * | * | !'''),
]
