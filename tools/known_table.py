fixed("P11", "serialize included nodes", "included nodes serialized under the key @include", '{"document":{"@included":{}}}')
fixed("P05", "@graph+@set container extended", "the container [@set,@graph,@index] lost @index", '{"document":{},"context":{"item":{"@id":"http://ex.org/c","@index":"http://p.org/ns#idx","@container":["@graph","@set","@index"]}}}')
fixed("P01", "drop undefined and @context entries", "undefined entries of value, list and set objects rejected", '{"document":{"dir":"rtl","@value":"T"}}',
 '{"document":{"http://ex.org/l":{"@list":["a"],"idx":"i1"}}}')
fixed("P01", "the base option overrides the base IRI", "the base option used as original base URL", '{"document":{},"expandContext":"c0.jsonld","http://ex.org/dir/c0.jsonld":{"@context":{}},"url":"http://ex.org/dir/doc.jsonld","base":"http://base.org/d/e?f#g"}')
fixed("P01", "expand @reverse maps", "@reverse maps not expanded as node objects; an invalid relative @vocab accepted", '{"document":{"@context":{"name":{"@id":"http://ex.org/name","@type":"@json"}},"@reverse":{"name":{}}}}',
 '{"document":{"@context":{"@vocab":"a b"}}}',
 '{"document":{"@context":{"@vocab":"http://ex.org/","c":{"@id":"http://ex.org/c","@container":"@index"}},"@reverse":{"c":{"i":{"@id":"http://ex.org/x"}}}}}')
fixed("P01", "sibling remote contexts", "sibling remote contexts taken for a cycle", '{"document":{"@context":["http://ex.org/dir/c0.jsonld",{"@import":"http://ex.org/dir/c0.jsonld"}],"a":{"@id":"sub/n"}},"http://ex.org/dir/c0.jsonld":{"@context":{"@base":"http://ex.org/","a":{"@reverse":"http://p.org/ns#a"}}}}')
fixed("P01", "term definitions do not depend", "the definition of a term depended on the order of the entries of its context", '{"document":{"@context":{"@protected":true,"name":{"@id":"exv:name"},"exv":{"@id":"http://ex.org/v","@prefix":true},"A":{"@id":"http://ex.org/A","@context":{"exv":"http://ex.org/v"}}},"@type":"A"}}')
fixed("P01", "expand literals of terms with a @json", "values of @json terms were not expanded as JSON literals under a scoped context", '{"document":{"@context":{"h":{"@context":{"h":{"@id":"http://ex.org/h","@type":"@json"}},"@id":"http://ex.org/h"}},"@nest":{"h":"x"}}}')
fixed("P01", "an indexed graph object", "an indexed empty graph dropped from the top level", '{"document":{"@index":"i1","@graph":[]}}')
fixed("P01", "ignore null values of terms", "null kept as value of a @list or @graph container", '{"document":{"@context":{"g":{"@id":"http://ex.org/g","@container":"@graph"}},"g":null}}')
fixed("P01", "a map index that expands to null", "a map index whose term is null taken for @none", '{"document":{"@context":{"a":null,"f":{"@container":"@index","@id":"http://ex.org/f"}},"f":{"a":{}}}}')
fixed("P01", "only a top level map", "an item of the top level array replaced by its @graph entry", '{"document":[{"@graph":[]}]}')
fixed("P01", "no empty property for an empty doubly", "an empty doubly reversed property left an empty property", '{"document":{"@context":{"r":{"@reverse":"http://ex.org/r"}},"http://ex.org/k":{"@id":"http://ex.org/n","@reverse":{"r":[]}}}}')
fixed("P05", "choose compact IRIs deterministically", "prefixes confused although they are no prefixes; compact IRIs chosen at random", '{"document":{"exv:e":1e2},"context":{"exv":"http://ex.org/v"}}')
fixed("P05", "a type-scoped context does not apply", "type-scoped contexts applied in @reverse maps and not reverted for indexed references",
 '{"document":{"@id":"http://ex.org/n","@type":"http://ex.org/T","@reverse":{"http://ex.org/p":{"@id":"http://ex.org/m"}}},"context":{"p":"http://ex.org/p","T":{"@id":"http://ex.org/T","@context":{"p":null}}}}',
 '{"document":{"@type":"http://ex.org/T","http://ex.org/p":{"@id":"http://ex.org/m","@index":"i"}},"context":{"T":{"@id":"http://ex.org/T","@context":{"i":"@index"}}}}')
fixed("P06", "compact language tagged strings", "language tagged strings compacted to plain strings although the default direction differs", '{"document":{"@context":{"name":{"@id":"http://ex.org/name"}},"name":{"@value":"true","@language":"ja"}},"context":{"@language":"ja","@direction":"ltr"}}')
fixed("P05", "find the list container of a term", "nested lists compacted with the container of the outer term under a property-scoped context", '{"document":{"@context":{"c":{"@id":"http://ex.org/c","@container":"@list"}},"p:f":{"c":[[]]}},"context":{"c":{"@id":"http://ex.org/c","@container":"@list","@context":null}}}')
fixed("P05", "include the @type term definition", "the definition of @type kept out of the inverse context", '{"document":{"@context":{"type":"@type"},"@graph":{"type":"p:W"}},"context":{"type":"@type","@type":{"@container":"@set"}}}')
fixed("P06", "compaction of indexed lists and graphs", "the index of lists and graphs, and values with the same map key, lost by compaction",
 '{"document":{"http://ex.org/a":{"@list":["x"],"@index":"i"}},"context":{"a":{"@id":"http://ex.org/a","@container":"@index"}}}')
fixed("P05", "a type map value without @id", "panic when a type map value without identifier has an entry named like an alias of @id", '{"document":{"@context":{"a":{"@id":"http://ex.org/a","@container":"@index"}},"@reverse":{"http://ex.org/label":{"a":{"T":{"@list":[]},"i2":"1"}}}},"context":{"a":{"@id":"http://ex.org/a","@container":"@index"}},"compactArrays":false}')
fixed("P01", "expanding the empty string in a context", "the empty string in a context taken for the definition of an empty term", '{"document":{"@context":{"@vocab":"http://ex.org/","a":""}}}')
fixed("P01", "reject keyword redefinitions", "keyword redefinitions accepted", '{"document":{"@context":{"@id":"http://ex.org/x"}}}')
fixed("P05", "a context entry that looks like a keyword", "an entry that looks like a keyword defined a (protected) term", '{"document":{},"context":[{"@protected":true,"@unknown":"http://ex.org/ignored"},null]}')
fixed("P07", "merge the types of a node", "types of a node described several times lost by flattening", '{"document":{"http://ex.org/q":{"@id":"_:b1","@type":"http://ex.org/T"},"@included":{"@id":"_:b1","@type":"http://ex.org/U"}},"context":{}}')
fixed("P07", "keep the nodes of named graphs", "nodes of named graphs that only have types lost by flattening", '{"document":{"@graph":{"@type":"_:x"},"@included":[]},"context":[]}')
fixed("P07", "relabel blank node properties when flattening", "blank node properties not relabelled by flattening", '{"document":{"@context":[{"@vocab":"http://ex.org/vocab/"},{"id":"@id"}],"f":{"ex:n1":{"id":"_:b1"},"_:b1":{}}},"context":[]}')
fixed("P08", "emit the triples of compound literals", "the triples of compound literals missing", '{"document":{"http://ex.org/p":{"@value":"x","@direction":"ltr"}},"rdfDirection":"compound-literal"}')
fixed("P08", "datatype of strings with a direction", "wrong i18n datatype of strings without language", '{"document":{"http://ex.org/p":{"@value":"x","@direction":"ltr"}},"rdfDirection":"i18n-datatype"}')
fixed("P08", "numbers without fractional part", "integers beyond 64 bits serialized as a double", '{"document":{"http://ex.org/a":{"@value":1e20}}}')
fixed("P08", "canonicalize the literals of graphs", "literals of graphs and included nodes not canonicalized", '{"document":{"@graph":{"http://p.org/ns#r":{"@value":{"k":null,"@context":""},"@type":"@json"}},"@included":[]}}')
fixed("P08", "keep the structure of RDF lists", "lists with items that have no RDF value broken", '{"document":{"http://ex.org/c":{"@list":["1",{"@id":"sub/n"}]}}}')
fixed("P08", "relabel blank node properties", "blank node properties not relabelled", '{"document":{"@reverse":{"http://ex.org/g":{"@id":"_:b1"}},"http://ex.org/c":{"_:b1":{}}},"generalized":true}')


fixed("P02", "contexts written back", "null mappings lost and prefixes added in contexts written back", '{"steps":[{"context":{"p":{"@id":"http://p.org/ns#"}}}]}', '{"steps":[{"context":{"@protected":true,"h":{"@id":null}}}]}')
fixed("P02", "compare the definitions", "contexts with different definitions equal", '{"steps":[{"context":{}},{"context":{"a":"http://ex.org/a"}}]}')
fixed("P04", "errors in remote contexts", "mistakes in remote contexts reported as loading failures", '{"document":{"@context":"http://ex.org/dir/c0.jsonld"},"http://ex.org/dir/c0.jsonld":{"@context":{"p":{"@id":"http://p.org/ns#","@context":{"@vocab":1}}}}}', '{"document":{"@context":{"@import":"http://ex.org/dir/c1.jsonld"}},"http://ex.org/dir/c1.jsonld":{"@context":{"name":4}}}')
fixed("P04", "report @type values", "type values that are not strings reported as invalid typed values", '{"document":{"@value":10.0,"@type":false}}')
fixed("P20", "traverse the content of lists", "the items of lists not visited by traversals", '[{"http://ex.org/p":[{"@list":[{"@id":"_:b"}]}]}]')
fixed("P20", "tell JSON objects from arrays", "JSON object entries told to be arrays", '[{"http://ex.org/p":[{"@value":{"k":1},"@type":"@json"}]}]', '[{"@id":"_:b","http://ex.org/p":[{"@value":1}]}]')
fixed("P20", "name of the index entry", "the key of the @index entry given as @id", '[{"@graph":[{"@index":"i"}]}]')
fixed("P20", "visit the reverse properties", "reverse properties not visited by traversals", '[{"@reverse":{"http://ex.org/p":[{"@id":"_:b"}]}}]')
fixed("P15", "update the inverse context", "a stale inverse context used after the definition of @type changed", '{"kind":"context","operations":[["inverse"],["type","@id"]]}', '{"kind":"context","operations":["inverse",["type","@id"]]}')
fixed("P03", "do not expand IRIs and blank node identifiers", "strings with a scheme that are not IRIs expanded against the vocabulary or a prefix", '{"contexts":[{"@vocab":"http://v.org/"}],"strings":["http://ex.org/name:a b"],"base":"http://ex.org/"}', '{"contexts":[{"p":"http://p.org/ns#"}],"strings":["_:b c","p://x y","p:da b"]}')
fixed("P16", "give the number of bindings left", "panic when collecting the entries of a context", '{"a":"http://ex.org/a"}')
fixed("P16", "serialize the definition of @type", "the definition of @type serialized with a null entry", '{"@type":{"@container":"@set"}}')
fixed("P16", "deserialize null scoped contexts", "null scoped contexts lost by deserialization", '{"g":{"@context":null}}')
fixed("P16", "traverse term definitions", "scoped contexts and containers not visited by traversals", '{"g":{"@context":{"a":"b"}}}', '{"g":{"@container":["@set"]}}')
fixed("P01", "accept any lexical form of 1.1", "@version 1.10 rejected", '{"document":{"@context":{"@version":1.10,"a":"http://ex.org/a"},"a":1}}')
fixed("P21", "compare objects with duplicate keys", "panic when comparing objects with duplicate keys", '{"document":{"@graph":"a"},"document2":{"@graph":"a","@graph":"b"}}', '{"document":{"a":1,"a":2},"document2":{"a":2,"a":1}}')
fixed("P18", "let the URL of a mounted directory end", "directories mounted on URLs that end with a slash not found", '{"mounts":[["http://ex.org/a/","d0"]],"urls":["http://ex.org/a/b"]}', '{"mounts":[["http://ex.org","d0"]],"urls":["http://ex.org/b"]}')
fixed("P18", "keep FsLoader in the mounted", "files out of the mounted directory loaded", '{"mounts":[["urn:","d2"]],"urls":["urn:../etc"]}')
fixed("P22", "errors in contexts given by URL", "mistakes in contexts given by URL reported as loading failures", '{"document":{},"context":"http://ex.org/dir/c0.jsonld","contextDocument":[]}')
fixed("P22", "process the context of a Link", "the base of a context given apart not ignored", '{"document":{},"http://ex.org/dir/c0.jsonld":{"@context":{"T":{"@id":"ex:T","@context":{"@base":""}}}},"context":"http://ex.org/dir/c0.jsonld","contextUrl":"http://ex.org/dir/c0.jsonld"}')
fixed("P23", "give HTTP documents their final URL", "the URL of a redirected HTTP document was not its final URL", '{"urls":"http://h/d/b","web":{"http://h/d/b":{"moved":"http://h/a","types":[],"links":[],"body":"1"},"http://h/a":{"types":[{"type":"application/ld+json","params":[]}],"links":[],"body":"1"}}}')
fixed("P23", "load HTTP documents of any +json", "HTTP documents of other +json media types refused", '{"urls":"http://h/a","web":{"http://h/a":{"types":[{"type":"application/activity+json","params":[]}],"links":[],"body":"1"}}}')
fixed("P23", "read all the forms of Content-Type", "media types with blanks, other cases or a final semicolon ignored, or without profile", '{"urls":"http://h/a","web":{"http://h/a":{"types":[{"type":"application/json","params":[[" ","","charset","utf-8",false]]}],"links":[],"body":"1"}}}', '{"urls":"http://h/a","web":{"http://h/a":{"types":[{"type":"application/ld+json","params":[[""," ","Profile","urn:p",true]]}],"links":[],"body":"1"}}}', '{"urls":"http://h/a","web":{"http://h/a":{"types":[{"type":"application/json","params":[],"end":";"}],"links":[],"body":"1"}}}')
fixed("P23", "read all the forms of Link headers", "Link headers with several links, blanks, or tokens as values ignored", '{"urls":"http://h/a","web":{"http://h/a":{"types":[{"type":"application/json","params":[]}],"links":[[{"href":"b","params":[]},{"href":"c","params":[["","","rel","http://www.w3.org/ns/json-ld#context",true]]}]],"body":"1"}}}', '{"urls":"http://h/a","web":{"http://h/a":{"types":[],"links":[[{"href":"b","params":[["","","rel","alternate",false],["","","type","application/ld+json",true]]}]],"body":"1"},"http://h/b":{"types":[{"type":"application/json","params":[]}],"links":[],"body":"1"}}}')
fixed("P24", "keep rdf:type out of the rdf:first", "nodes with an rdf:first or rdf:rest had their types as a property", '{"quads":[["_:l20","http://www.w3.org/1999/02/22-rdf-syntax-ns#first","_:b0","http://ex.org/g"],["_:l20","http://www.w3.org/1999/02/22-rdf-syntax-ns#type","http://www.w3.org/1999/02/22-rdf-syntax-ns#List","http://ex.org/g"]]}')
fixed("P24", "keep the literal types of RDF", "literals that are types of nodes lost", '{"quads":[["urn:c","http://www.w3.org/1999/02/22-rdf-syntax-ns#type",{"v":"x","t":"http://www.w3.org/2001/XMLSchema#integer"},null]]}')
fixed("P24", "keep the nodes of cycles", "nodes only referred to by themselves, by a cycle, or as types lost", '{"quads":[["_:b3","urn:r","_:b3",null]]}', '{"quads":[["http://ex.org/d","http://ex.org/q","http://ex.org/d","_:b0"]]}')
fixed("P24", "read RDF lists as list objects", "RDF lists not read as lists, or lost", '{"quads":[["_:l12","http://www.w3.org/1999/02/22-rdf-syntax-ns#rest","http://www.w3.org/1999/02/22-rdf-syntax-ns#nil",null],["_:l11","http://www.w3.org/1999/02/22-rdf-syntax-ns#rest","_:l12",null],["_:l12","http://www.w3.org/1999/02/22-rdf-syntax-ns#first","_:b0",null]]}', '{"quads":[["_:l00","http://www.w3.org/1999/02/22-rdf-syntax-ns#first","http://www.w3.org/1999/02/22-rdf-syntax-ns#List",null],["_:b0","urn:r","_:l00",null],["_:l00","http://www.w3.org/1999/02/22-rdf-syntax-ns#rest","http://www.w3.org/1999/02/22-rdf-syntax-ns#nil",null]]}')
fixed("P24", "keep the RDF numbers", "numbers whose lexical form is not a JSON number refused", '{"quads":[["http://ex.org/a","http://ex.org/q",{"v":"5.","t":"http://www.w3.org/2001/XMLSchema#double"},null]]}', '{"quads":[["_:b0","http://ex.org/q",{"v":"007","t":"http://www.w3.org/2001/XMLSchema#integer"},"http://ex.org/g"]]}')
fixed("P25", "end the linked data lists", "lists visited without rdf:nil", '{"document":{"http://p.org/ns#r":{"@list":[]}},"how":1}')
fixed("P25", "visit both the graph", "the properties of nodes with a graph not visited, or the graph of the others", '{"document":{"@graph":{"@type":"http://www.w3.org/2001/XMLSchema#decimal"},"@reverse":{"http://ex.org/p":[]}}}')
fixed("P25", "visit values as the literals", "booleans and numbers visited with another type or lexical form", '{"document":{"http://ex.org/q":{"@value":false,"@type":"http://ex.org/dt"}}}', '{"document":{"http://p.org/ns#r":{"@value":true,"@type":"http://www.w3.org/2001/XMLSchema#double"}}}')
fixed("P25", "visit values used as linked data", "values in lists not visited", '{"document":{"http://ex.org/q":{"@list":{"@value":0}}}}')
fixed("P25", "do not visit the values and lists of graphs", "documents with values directly in a graph refused", '{"document":{"@context":{"g":{"@id":"http://ex.org/g","@container":"@graph"}},"@included":{"g":{"@value":""}}}}')
fixed("P26", "keep the values of predicates and graphs", "only the last values kept of a property visited several times", '{"how":"dataset","default":{"props":[["http://ex.org/q",{}],["http://ex.org/q",[]]]}}')
fixed("P26", "serialize linked data lists once", "the items of lists serialized twice, other nodes with a rest become lists", '{"how":"object","thing":{"props":[["http://www.w3.org/1999/02/22-rdf-syntax-ns#rest",{}]]}}')
fixed("P26", "keep the lists that are subjects", "lists that are subjects of a named graph lost", '{"how":"interpreted","named":{"name":{},"subjects":{"props":[["http://www.w3.org/1999/02/22-rdf-syntax-ns#rest",{"id":"http://www.w3.org/1999/02/22-rdf-syntax-ns#nil"}],["http://www.w3.org/1999/02/22-rdf-syntax-ns#first",{}]]}}}')
fixed("P27", "apply the vocabulary policy to terms", "what does not need the vocabulary, or is in another context, refused", '{"document":{"a":{},"@context":null},"expandContext":{"@vocab":"http://ex.org/"},"vocab":"reject","invalid":"keep","undefined":true}', '{"document":{"@context":{"d":{"@container":"@index"},"@vocab":"http://p.org/ns#"},"d":{"T":[]}},"vocab":"reject","invalid":"keep","undefined":true}')
fixed("P27", "apply the policy on invalid types", "invalid types of type maps kept", '{"document":{"@context":{"f":{"@id":"exv:f","@container":"@type"}},"f":{"U":{}}},"vocab":"keep","invalid":"reject","undefined":false}', '{"document":{"@context":{"name":{"@id":"http://ex.org/name","@container":"@type"}},"name":{"g":"1"}},"vocab":"reject","invalid":"drop","undefined":true}')
fixed("P13", "compare the types of nodes", "nodes with other types equal up to blank nodes",
    '{"a":[{"http://ex.org/s":[{"@list":[{"@id":"_:b1"}]}]}],"b":[{"http://ex.org/s":[{"@list":[{"@type":["http://ex.org/T"],"@id":"_:b1"}]}]}]}')
fixed("P01", "reject keywords given twice", "keywords given twice accepted, in value, list and set objects, and indexes",
    '{"document":{"@context":[{"@vocab":"urn:x:"},{"alias":"@index"}],"nst":{"@index":"http://ex.org/k","alias":"http://ex.org/k"}}}',
    '{"document":{"@context":{"alias":"@value"},"@graph":{"@value":{},"alias":"http://ex.org/k"}}}')
fixed("P01", "reject indexes of sets", "indexes of sets that are not strings accepted",
    '{"document":{"@set":[],"@index":null}}')
fixed("P01", "reject values with several types", "values with several types accepted",
    '{"document":{"@context":{"alias":"@type"},"@graph":{"@type":"ex:dt","@value":"x","alias":"http://ex.org/k"}}}')
fixed("P01", "ignore base directions in json-ld-1.0", "base directions kept in json-ld-1.0",
    '{"document":{"http://p.org/ns#a":{"@value":"x","@direction":"ltr"}},"mode":"json-ld-1.0"}')

finding("P19", "panic:index.crates.io-1949cf8c6b5b557f/pct-str-2.0.0/src/lib.rs", "panic (in the iref library) when an IRI contains percent-encoded bytes that are not UTF-8", '{"document":{"@id":"a://%b1","http://ex.org/p":{"@id":"http://ex.org/%b1"}},"context":{}}')
