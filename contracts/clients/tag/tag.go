package tag

import "context"

// Lemma functions: their contracts (contracts/tag.spec) state what a client of the package relies on.

func govcInsert(m *Map, k Key, v string, mds []Metadata) (*Map, error) {
	return Insert(k, v, mds...).Mutate(m)
}
func govcUpdate(m *Map, k Key, v string, mds []Metadata) (*Map, error) {
	return Update(k, v, mds...).Mutate(m)
}
func govcUpsert(m *Map, k Key, v string, mds []Metadata) (*Map, error) {
	return Upsert(k, v, mds...).Mutate(m)
}
func govcDelete(m *Map, k Key) (*Map, error) { return Delete(k).Mutate(m) }

func govcWithTTL(t TTL, m *metadatas) { WithTTL(t)(m) }

func govcRoundTrip(ctx context.Context, m *Map) *Map { return FromContext(NewContext(ctx, m)) }
