package weddingcake

import "github.com/KitchenMishap/pudding-shed/verifsim/simrt"

func init() {
	// appends one chunk of hashes
	simrt.Hooks["chunks.append"] = func(w *ChunkFilesWrite, hashes []ShallowTreeHash, hashLength, reassurance, formats byte, nodeBytes, idBytes int) (*ChunkPreparation, error) {
		cp := NewChunkPreparation(hashes, hashLength, reassurance, formats, chunksNode(nodeBytes), chunksId(idBytes))
		cp.PrepareAndSerialize()
		return cp, w.AppendChunk(&cp.chunk)
	}
	simrt.Hooks["chunks.read"] = func(r *ChunkFilesRead, cp *ChunkPreparation) error { return r.ReadAndMmap(cp.chunk.Config) }
	simrt.Hooks["chunks.made"] = func(cp *ChunkPreparation) *Chunk { return &cp.chunk }
	simrt.Hooks["chunks.list"] = func(r *ChunkFilesRead) []Chunk { return r.chunks }
}

func chunksNode(n int) NByteIdConfig[NodeIdType] {
	return []NByteIdConfig[NodeIdType]{ID16[NodeIdType]{}, ID24[NodeIdType]{}, ID32[NodeIdType]{}}[n-2]
}
func chunksId(n int) NByteIdConfig[HashIndexIdType] {
	return []NByteIdConfig[HashIndexIdType]{ID16[HashIndexIdType]{}, ID24[HashIndexIdType]{}, ID32[HashIndexIdType]{}}[n-2]
}
