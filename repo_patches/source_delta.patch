From 11ae3ff2776585dcb2f8193fb2ee77bc9f781926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:53 +0000
Subject: [PATCH 01/46] fix: DecodeBatch keeps the order of its results and
 appends without a race

---
 tokenizer.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/tokenizer.go b/tokenizer.go
index 38f9bf1..83bf549 100644
--- a/tokenizer.go
+++ b/tokenizer.go
@@ -672,7 +672,7 @@ func (t *Tokenizer) EncodeBatch(inputs []EncodeInput, addSpecialTokens bool) (re
 
 // DecodeBatch decodes all sentences in concurrency
 func (t *Tokenizer) DecodeBatch(sentences [][]int, skipSpecialTokens bool) []string {
-	var decodings []string
+	decodings := make([]string, len(sentences))
 	var wg sync.WaitGroup
 
 	wg.Add(len(sentences))
@@ -682,8 +682,7 @@ func (t *Tokenizer) DecodeBatch(sentences [][]int, skipSpecialTokens bool) []str
 		go func(i int) {
 			defer wg.Done()
 
-			s := t.Decode(sentences[i], skipSpecialTokens)
-			decodings = append(decodings, s)
+			decodings[i] = t.Decode(sentences[i], skipSpecialTokens)
 		}(i)
 	}
 
-- 
2.43.0


From a9e79d4fc460a1b1e6b21bad2d6ffbbfda495191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:53 +0000
Subject: [PATCH 02/46] fix: GetVocab returns a copy instead of adding tokens
 to the vocabulary of the model

---
 added-vocabulary.go | 7 ++++++-
 tokenizer.go        | 6 +++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/added-vocabulary.go b/added-vocabulary.go
index cafeb11..4e72bf6 100644
--- a/added-vocabulary.go
+++ b/added-vocabulary.go
@@ -236,7 +236,12 @@ func (av *AddedVocabulary) Len() int {
 
 // GetVocab gets the additional vocabulary
 func (av *AddedVocabulary) GetVocab() (retVal map[string]int) {
-	return av.addedTokenMap
+	retVal = make(map[string]int, len(av.addedTokenMap))
+	for k, v := range av.addedTokenMap {
+		retVal[k] = v
+	}
+
+	return retVal
 }
 
 // Get the id matching one of our token if it exists
diff --git a/tokenizer.go b/tokenizer.go
index 83bf549..afc5268 100644
--- a/tokenizer.go
+++ b/tokenizer.go
@@ -342,7 +342,11 @@ func (t *Tokenizer) GetPadding() (retVal *PaddingParams) {
 
 // GetVocab get the vocabulary
 func (t *Tokenizer) GetVocab(withAddedTokens bool) map[string]int {
-	finalVocab := t.model.GetVocab()
+	modelVocab := t.model.GetVocab()
+	finalVocab := make(map[string]int, len(modelVocab))
+	for k, v := range modelVocab {
+		finalVocab[k] = v
+	}
 	if withAddedTokens {
 		addedVocab := t.addedVocabulary.GetVocab()
 		if len(addedVocab) > 0 {
-- 
2.43.0


From d4d8af43ad343e5d5a958734aeeb9c1fd13bb54c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:53 +0000
Subject: [PATCH 03/46] fix: truncated encodings and their overflowing parts no
 longer share storage

---
 encoding.go | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/encoding.go b/encoding.go
index 341bc7f..32f856b 100644
--- a/encoding.go
+++ b/encoding.go
@@ -353,19 +353,19 @@ func (e *Encoding) Truncate(maxLen int, stride int) (retVal *Encoding, err error
 
 	// Truncating at maxLen (exclusive) to keep.
 	// The rest (overflowing) from maxLen (inclusive)
-	newIds := e.Ids[0:maxLen]
+	newIds := e.Ids[0:maxLen:maxLen]
 	oIds := e.Ids[maxLen:len(e.Ids)] // overflowing
-	newTypeIds := e.TypeIds[0:maxLen]
+	newTypeIds := e.TypeIds[0:maxLen:maxLen]
 	oTypeIds := e.TypeIds[maxLen:len(e.TypeIds)]
-	newTokens := e.Tokens[0:maxLen]
+	newTokens := e.Tokens[0:maxLen:maxLen]
 	oTokens := e.Tokens[maxLen:len(e.Tokens)]
-	newOffsets := e.Offsets[0:maxLen]
+	newOffsets := e.Offsets[0:maxLen:maxLen]
 	oOffsets := e.Offsets[maxLen:len(e.Offsets)]
-	newSpeToks := e.SpecialTokenMask[0:maxLen]
+	newSpeToks := e.SpecialTokenMask[0:maxLen:maxLen]
 	oSpeToks := e.SpecialTokenMask[maxLen:len(e.SpecialTokenMask)]
-	newAttent := e.AttentionMask[0:maxLen]
+	newAttent := e.AttentionMask[0:maxLen:maxLen]
 	oAttent := e.AttentionMask[maxLen:len(e.AttentionMask)]
-	newWords := e.Words[0:maxLen]
+	newWords := e.Words[0:maxLen:maxLen]
 	oWords := e.Words[maxLen:len(e.Words)]
 
 	e.Ids = newIds
@@ -394,6 +394,10 @@ func (e *Encoding) Truncate(maxLen int, stride int) (retVal *Encoding, err error
 			Words:            getCurrentPart(prevEncoding.Words, oWords, partSize, partId, stride),
 			Overflowing:      make([]Encoding, 0),
 		}
+		// offsets of the stride are shared with the previous part
+		for i, offsets := range o.Offsets {
+			o.Offsets[i] = append([]int(nil), offsets...)
+		}
 
 		partId += 1
 		overflowing = append(overflowing, o)
@@ -679,7 +683,7 @@ func getCurrentPart[T any](previous, current []T, size, idx, stride int) []T {
 
 	start := idx * size
 	if start >= len(current) {
-		return previous[len(previous)-stride:]
+		return append([]T(nil), previous[len(previous)-stride:]...)
 	}
 
 	end := (idx + 1) * size
@@ -690,5 +694,7 @@ func getCurrentPart[T any](previous, current []T, size, idx, stride int) []T {
 	curr := current[start:end]
 	prev := previous[len(previous)-stride:]
 
-	return append(prev, curr...)
+	part := make([]T, 0, len(prev)+len(curr))
+	part = append(part, prev...)
+	return append(part, curr...)
 }
-- 
2.43.0


From 976700c920bdbaa2d3bbaedbc632a33fb1653517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:53 +0000
Subject: [PATCH 04/46] fix: left padding no longer panics or fills type ids
 with token ids

---
 encoding.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/encoding.go b/encoding.go
index 32f856b..54ede8a 100644
--- a/encoding.go
+++ b/encoding.go
@@ -576,6 +576,9 @@ func (e *Encoding) Pad(targetLength, padId, padTypeId int, padToken string, dire
 
 func (e *Encoding) pad(targetLength, padId, padTypeId int, padToken string, direction PaddingDirection) *Encoding {
 	padLength := targetLength - len(e.Ids)
+	if padLength <= 0 {
+		return e
+	}
 
 	switch direction {
 	case Left:
@@ -590,7 +593,7 @@ func (e *Encoding) pad(targetLength, padId, padTypeId int, padToken string, dire
 		for i := 0; i < len(newTypeIds); i++ {
 			newTypeIds[i] = padTypeId
 		}
-		newTypeIds = append(newTypeIds, e.Ids...)
+		newTypeIds = append(newTypeIds, e.TypeIds...)
 		e.TypeIds = newTypeIds
 
 		newTokens := make([]string, padLength)
@@ -615,7 +618,7 @@ func (e *Encoding) pad(targetLength, padId, padTypeId int, padToken string, dire
 		e.AttentionMask = newAttentionMask
 
 		newOffsets := make([][]int, padLength)
-		for i := 0; i < len(newIds); i++ {
+		for i := 0; i < len(newOffsets); i++ {
 			newOffsets[i] = []int{0, 0}
 		}
 		newOffsets = append(newOffsets, e.Offsets...)
-- 
2.43.0


From c6d71a55d19f931eadfaa87c0d7b8d2913d20550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:53 +0000
Subject: [PATCH 05/46] fix: BPE tokenizes without panicking when its cache is
 disabled

---
 model/bpe/bpe.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/model/bpe/bpe.go b/model/bpe/bpe.go
index d408818..5efd3fc 100644
--- a/model/bpe/bpe.go
+++ b/model/bpe/bpe.go
@@ -478,16 +478,18 @@ func (b BPE) Tokenize(sequence string) (retVal []tokenizer.Token, err error) {
 
 func (b BPE) TokenizeWithCache(sequence string) (retVal []tokenizer.Token) {
 
+	if b.Cache == nil { // caching is disabled
+		return b.WordToTokens(*b.MergeWord(sequence))
+	}
+
 	if hit, ok := b.Cache.Get(sequence); ok {
 		return b.WordToTokens(hit)
 	} else {
 		word := b.MergeWord(sequence)
 		retVal = b.WordToTokens(*word)
-		if b.Cache != nil {
-			b.Cache.SetValues([]CacheItem{
-				{sequence, *word},
-			})
-		}
+		b.Cache.SetValues([]CacheItem{
+			{sequence, *word},
+		})
 		return retVal
 	}
 }
-- 
2.43.0


From eb160009d99b7806fb956b47d8244c620f3816fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:07 +0000
Subject: [PATCH 06/46] fix: encoding returns the error of a failing normalizer
 instead of exiting

---
 added-vocabulary.go | 22 ++++++++++++++++++++--
 tokenizer.go        | 10 +++++-----
 2 files changed, 25 insertions(+), 7 deletions(-)

diff --git a/added-vocabulary.go b/added-vocabulary.go
index 4e72bf6..e54435e 100644
--- a/added-vocabulary.go
+++ b/added-vocabulary.go
@@ -506,6 +506,16 @@ func (av *AddedVocabulary) splitWithIndices(sentence *normalizer.NormalizedStrin
 // input sentence `I read a book Yesterday`, if the normalizer is supposed to lowercase
 // everything, we expect a match.
 func (av *AddedVocabulary) ExtractAndNormalize(sequence string, n normalizer.Normalizer) *PreTokenizedString {
+	pretokenized, err := av.extractAndNormalize(sequence, n)
+	if err != nil {
+		log.Fatal(err)
+	}
+
+	return pretokenized
+}
+
+// extractAndNormalize is ExtractAndNormalize, returning the error of a failing normalizer.
+func (av *AddedVocabulary) extractAndNormalize(sequence string, n normalizer.Normalizer) (*PreTokenizedString, error) {
 
 	pretokenized := NewPreTokenizedString(sequence)
 
@@ -515,19 +525,27 @@ func (av *AddedVocabulary) ExtractAndNormalize(sequence string, n normalizer.Nor
 	})
 
 	// 2. Extract the normalized tokens from the normalized pieces of the string
+	var nErr error
 	pretok2 := pretok1.Split(func(i int, seq *normalizer.NormalizedString) []SplitIdx {
 		newSeq := seq
 		var err error
 		if n != nil {
+			if nErr != nil {
+				return nil
+			}
 			newSeq, err = n.Normalize(seq)
 			if err != nil {
-				log.Fatal(err)
+				nErr = err
+				return nil
 			}
 		}
 		return av.splitWithIndices(newSeq, av.splitNormalizedRe)
 	})
+	if nErr != nil {
+		return nil, nErr
+	}
 
-	return pretok2
+	return pretok2, nil
 }
 
 type AddedTokenWithId struct {
diff --git a/tokenizer.go b/tokenizer.go
index afc5268..16de5d3 100644
--- a/tokenizer.go
+++ b/tokenizer.go
@@ -393,11 +393,11 @@ func (t *Tokenizer) IdToToken(id int) (token string, ok bool) {
 // EncodeSingleSequence encodes a single sequence
 func (t *Tokenizer) EncodeSingleSequence(sequence InputSequence, typeId int, offsetType OffsetType) (*Encoding, error) {
 	encode := func(isPreTokenized bool, subseqIdx int, subseq string) (*Encoding, error) {
-		normalized := t.addedVocabulary.ExtractAndNormalize(subseq, t.normalizer)
-		var (
-			pretokenized *PreTokenizedString = normalized
-			err          error
-		)
+		normalized, err := t.addedVocabulary.extractAndNormalize(subseq, t.normalizer)
+		if err != nil {
+			return nil, err
+		}
+		pretokenized := normalized
 
 		if t.preTokenizer != nil {
 			pretokenized, err = t.doPreTokenize(normalized)
-- 
2.43.0


From 327cd9ba7d96f257c2ed0de43fbfc7fd7db4513e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:07 +0000
Subject: [PATCH 07/46] fix: encoding returns an error instead of exiting when
 it cannot truncate as configured

---
 tokenizer.go | 27 ++++++++++++++++++++-------
 util.go      | 18 +++++++++++++-----
 2 files changed, 33 insertions(+), 12 deletions(-)

diff --git a/tokenizer.go b/tokenizer.go
index 16de5d3..5a5a527 100644
--- a/tokenizer.go
+++ b/tokenizer.go
@@ -478,7 +478,7 @@ func (t *Tokenizer) Encode(input EncodeInput, addSpecialTokens bool) (retVal *En
 		log.Fatalf("Invalid input type - '%T'. \n", input)
 	}
 
-	return t.PostProcess(encoding, pairEncoding, addSpecialTokens), nil
+	return t.postProcess(encoding, pairEncoding, addSpecialTokens)
 }
 
 // EncodeCharOffsets encodes the given input, using offsets relative to chars instead of bytes.
@@ -512,7 +512,7 @@ func (t *Tokenizer) EncodeCharOffsets(input EncodeInput, addSpecialTokens bool)
 		log.Fatalf("Invalid input type - '%T'. \n", input)
 	}
 
-	return t.PostProcess(encoding, pairEncoding, addSpecialTokens), nil
+	return t.postProcess(encoding, pairEncoding, addSpecialTokens)
 }
 
 // Decode decodes the given ids, back to a String
@@ -590,6 +590,16 @@ func (t *Tokenizer) doTokenize(pretokenized *PreTokenizedString, typeId int, wor
 
 // PostProcess does post-processing logic, handling the case where there is no PostProcessor set
 func (t *Tokenizer) PostProcess(encoding, pairEncoding *Encoding, addSpecialTokens bool) (retVal *Encoding) {
+	retVal, err := t.postProcess(encoding, pairEncoding, addSpecialTokens)
+	if err != nil {
+		log.Fatal(err)
+	}
+
+	return retVal
+}
+
+// postProcess is PostProcess, returning an error when the encodings cannot be truncated as configured.
+func (t *Tokenizer) postProcess(encoding, pairEncoding *Encoding, addSpecialTokens bool) (retVal *Encoding, err error) {
 	var tEncoding, tPairEncoding *Encoding
 
 	// 1. Truncate if needed
@@ -610,9 +620,12 @@ func (t *Tokenizer) PostProcess(encoding, pairEncoding *Encoding, addSpecialToke
 				Strategy:  trunc.Strategy,
 				Stride:    trunc.Stride,
 			}
-			tEncoding, tPairEncoding = TruncateEncodings(encoding, pairEncoding, params)
+			tEncoding, tPairEncoding, err = truncateEncodings(encoding, pairEncoding, params)
 		} else {
-			tEncoding, tPairEncoding = TruncateEncodings(encoding, pairEncoding, trunc)
+			tEncoding, tPairEncoding, err = truncateEncodings(encoding, pairEncoding, trunc)
+		}
+		if err != nil {
+			return nil, err
 		}
 	}
 
@@ -627,16 +640,16 @@ func (t *Tokenizer) PostProcess(encoding, pairEncoding *Encoding, addSpecialToke
 
 	// 3. Pad if needed
 	if t.padding == nil {
-		return finalEncoding
+		return finalEncoding, nil
 	}
 
 	var padEncodings []Encoding
 	encodings := []Encoding{*finalEncoding}
 	padEncodings = PadEncodings(encodings, *t.padding)
 	if len(padEncodings) == 1 {
-		return &padEncodings[0]
+		return &padEncodings[0], nil
 	} else {
-		return padEncodings[0].Merge(padEncodings[1:], true)
+		return padEncodings[0].Merge(padEncodings[1:], true), nil
 	}
 }
 
diff --git a/util.go b/util.go
index 1e5d49c..21872ba 100644
--- a/util.go
+++ b/util.go
@@ -81,14 +81,22 @@ const (
 )
 
 func TruncateEncodings(encoding, pairEncoding *Encoding, params *TruncationParams) (tEncoding, tPairEncoding *Encoding) {
+	tEncoding, tPairEncoding, err := truncateEncodings(encoding, pairEncoding, params)
+	if err != nil {
+		log.Fatal(err)
+	}
+
+	return tEncoding, tPairEncoding
+}
+
+func truncateEncodings(encoding, pairEncoding *Encoding, params *TruncationParams) (tEncoding, tPairEncoding *Encoding, err error) {
 	var (
 		totalLength int
 		toRemove    int
-		err         error
 	)
 
 	if params.MaxLength == 0 {
-		return encoding, pairEncoding
+		return encoding, pairEncoding, nil
 	}
 
 	totalLength = len(encoding.GetIds())
@@ -97,7 +105,7 @@ func TruncateEncodings(encoding, pairEncoding *Encoding, params *TruncationParam
 	}
 
 	if totalLength < params.MaxLength {
-		return encoding, pairEncoding
+		return encoding, pairEncoding, nil
 	}
 
 	toRemove = totalLength - params.MaxLength
@@ -145,10 +153,10 @@ func TruncateEncodings(encoding, pairEncoding *Encoding, params *TruncationParam
 	}
 
 	if err != nil {
-		log.Fatal(err)
+		return nil, nil, err
 	}
 
-	return encoding, pairEncoding
+	return encoding, pairEncoding, nil
 }
 
 func PadEncodings(encodings []Encoding, params PaddingParams) []Encoding {
-- 
2.43.0


From c8961f3a6bc5f48bedd898650a8d97b012fb7bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:07 +0000
Subject: [PATCH 08/46] fix: an added token never takes an id that is already
 in use

---
 added-vocabulary.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/added-vocabulary.go b/added-vocabulary.go
index e54435e..126a7ee 100644
--- a/added-vocabulary.go
+++ b/added-vocabulary.go
@@ -305,6 +305,10 @@ func (av *AddedVocabulary) AddTokens(tokens []AddedToken, model Model, normalize
 			id = i
 		} else {
 			id = model.GetVocabSize() + len(av.addedTokenMap)
+			// the ids of the model are not necessarily contiguous
+			for _, used := av.IdToToken(id, model); used; _, used = av.IdToToken(id, model) {
+				id++
+			}
 			av.addedTokenMap[token.Content] = id
 
 			if _, ok := av.specialTokensSet[token.Content]; !ok {
-- 
2.43.0


From 7859a93646a87189cac11145269c2dfa6face39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:07 +0000
Subject: [PATCH 09/46] fix: saving a model reports a failure to close the file

---
 model/bpe/bpe.go             | 5 ++++-
 model/unigram/unigram.go     | 2 +-
 model/wordlevel/wordlevel.go | 5 ++++-
 model/wordpiece/wordpiece.go | 5 ++++-
 4 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/model/bpe/bpe.go b/model/bpe/bpe.go
index 5efd3fc..2275bf9 100644
--- a/model/bpe/bpe.go
+++ b/model/bpe/bpe.go
@@ -578,7 +578,10 @@ func (b BPE) Save(dir string, nameOpt ...string) error {
 	for _, line := range lines {
 		fmt.Fprintln(w, line)
 	}
-	return w.Flush()
+	if err := w.Flush(); err != nil {
+		return err
+	}
+	return file.Close()
 
 }
 
diff --git a/model/unigram/unigram.go b/model/unigram/unigram.go
index 8f40367..ef6a9aa 100644
--- a/model/unigram/unigram.go
+++ b/model/unigram/unigram.go
@@ -239,7 +239,7 @@ func (u *Unigram) Save(dir string, prefixOpt ...string) error {
 		return err
 	}
 
-	return nil
+	return vocabFile.Close()
 }
 
 // Tokenize tokenizes the given sequence into multiple tokens
diff --git a/model/wordlevel/wordlevel.go b/model/wordlevel/wordlevel.go
index 8fc7806..b57f331 100644
--- a/model/wordlevel/wordlevel.go
+++ b/model/wordlevel/wordlevel.go
@@ -230,7 +230,10 @@ func (wl *WordLevel) Save(dir string, nameOpt ...string) (err error) {
 	for _, line := range lines {
 		fmt.Fprintln(w, line)
 	}
-	return w.Flush()
+	if err := w.Flush(); err != nil {
+		return err
+	}
+	return file.Close()
 
 }
 
diff --git a/model/wordpiece/wordpiece.go b/model/wordpiece/wordpiece.go
index a691bc9..a153a38 100644
--- a/model/wordpiece/wordpiece.go
+++ b/model/wordpiece/wordpiece.go
@@ -392,7 +392,10 @@ func (wp WordPiece) Save(dir string, nameOpt ...string) (err error) {
 	for _, line := range lines {
 		fmt.Fprintln(w, line)
 	}
-	return w.Flush()
+	if err := w.Flush(); err != nil {
+		return err
+	}
+	return file.Close()
 
 }
 
-- 
2.43.0


From 8395f2cd37f4867a359a7b971243e8c90eef1aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:39 +0000
Subject: [PATCH 10/46] Size limits of training behind the build tag verif

---
 model/bpe/limits.go       |  6 ++++++
 model/bpe/limits_verif.go |  9 +++++++++
 model/bpe/trainer.go      |  2 +-
 tokenizer.go              |  6 +++---
 train_limits.go           | 12 ++++++++++++
 train_limits_verif.go     | 16 ++++++++++++++++
 6 files changed, 47 insertions(+), 4 deletions(-)
 create mode 100644 model/bpe/limits.go
 create mode 100644 model/bpe/limits_verif.go
 create mode 100644 train_limits.go
 create mode 100644 train_limits_verif.go

diff --git a/model/bpe/limits.go b/model/bpe/limits.go
new file mode 100644
index 0000000..1f6a9b6
--- /dev/null
+++ b/model/bpe/limits.go
@@ -0,0 +1,6 @@
+//go:build !verif
+
+package bpe
+
+// parallelWords is the number of words from which pairs are counted in parallel.
+const parallelWords = 10000
diff --git a/model/bpe/limits_verif.go b/model/bpe/limits_verif.go
new file mode 100644
index 0000000..2f4290f
--- /dev/null
+++ b/model/bpe/limits_verif.go
@@ -0,0 +1,9 @@
+//go:build verif
+
+package bpe
+
+// Simulation builds (tag verif) shrink it to count in parallel on small inputs.
+var parallelWords = 10000
+
+// SetParallelWords sets the number of words from which pairs are counted in parallel.
+func SetParallelWords(n int) { parallelWords = n }
diff --git a/model/bpe/trainer.go b/model/bpe/trainer.go
index dc93a00..0655c21 100644
--- a/model/bpe/trainer.go
+++ b/model/bpe/trainer.go
@@ -388,7 +388,7 @@ func (bt *BpeTrainer) countPairs(words []Word, counts []int, progress interface{
 
 	// batch size
 	var workerNum int
-	if n < 10000 {
+	if n < parallelWords {
 		workerNum = 1
 	} else {
 		workerNum = 4
diff --git a/tokenizer.go b/tokenizer.go
index 5a5a527..f4d1a46 100644
--- a/tokenizer.go
+++ b/tokenizer.go
@@ -796,7 +796,7 @@ func (t *Tokenizer) Train(trainer Trainer, files []string) error {
 		file := jobs[currentJob].File
 		// current is the counter for bytes of the file.
 		var current int64 = 0
-		var limit int64 = 100 * mb
+		var limit int64 = trainChunkSize
 
 		fi, err := os.Stat(file)
 		if err != nil {
@@ -886,8 +886,8 @@ func (t *Tokenizer) processChunk(offset int64, limit int64, filename string, cha
 	file.Seek(offset, 0) // 0 means relative to the origin of file
 
 	scanner := bufio.NewScanner(file)
-	buf := make([]byte, 0, 1*gb) // initial buffer
-	scanner.Buffer(buf, 2*gb)    // max buffer size = 2GB
+	buf := make([]byte, 0, trainBufferSize) // initial buffer
+	scanner.Buffer(buf, trainMaxLine)       // max buffer size = 2GB
 
 	var cummulativeSize int64
 
diff --git a/train_limits.go b/train_limits.go
new file mode 100644
index 0000000..87b25b2
--- /dev/null
+++ b/train_limits.go
@@ -0,0 +1,12 @@
+//go:build !verif
+
+package tokenizer
+
+const (
+	// trainChunkSize is the number of bytes of a training file one goroutine reads.
+	trainChunkSize int64 = 100 * mb
+	// trainBufferSize and trainMaxLine are the initial and the maximal size of
+	// the buffer a line of a training file is read into.
+	trainBufferSize = 1 * gb
+	trainMaxLine    = 2 * gb
+)
diff --git a/train_limits_verif.go b/train_limits_verif.go
new file mode 100644
index 0000000..16acbbc
--- /dev/null
+++ b/train_limits_verif.go
@@ -0,0 +1,16 @@
+//go:build verif
+
+package tokenizer
+
+// Simulation builds (tag verif) shrink these to reach chunk boundaries with
+// small files; the defaults are those of train_limits.go.
+var (
+	trainChunkSize  int64 = 100 * mb
+	trainBufferSize       = 1 * gb
+	trainMaxLine          = 2 * gb
+)
+
+// SetTrainLimits sets the limits of training.
+func SetTrainLimits(chunkSize int64, bufferSize, maxLine int) {
+	trainChunkSize, trainBufferSize, trainMaxLine = chunkSize, bufferSize, maxLine
+}
-- 
2.43.0


From 629b1eca08f335c74ccfc78521f020074b9a1a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:39 +0000
Subject: [PATCH 11/46] fix: training on a file of several chunks counts every
 line exactly once

---
 tokenizer.go | 38 +++++++++++++++++++++-----------------
 1 file changed, 21 insertions(+), 17 deletions(-)

diff --git a/tokenizer.go b/tokenizer.go
index f4d1a46..731236b 100644
--- a/tokenizer.go
+++ b/tokenizer.go
@@ -794,8 +794,6 @@ func (t *Tokenizer) Train(trainer Trainer, files []string) error {
 		currentJob := i
 
 		file := jobs[currentJob].File
-		// current is the counter for bytes of the file.
-		var current int64 = 0
 		var limit int64 = trainChunkSize
 
 		fi, err := os.Stat(file)
@@ -812,7 +810,7 @@ func (t *Tokenizer) Train(trainer Trainer, files []string) error {
 
 			go func(n int, file string) {
 				// start reading file chunk by chunk
-				current = t.processChunk(current, limit, file, wChan, trainer)
+				t.processChunk(int64(n-1)*limit, limit, file, wChan, trainer)
 				fmt.Printf("File chunk %d has been completed\n", n)
 				scanWG.Done()
 			}(n, file)
@@ -870,34 +868,42 @@ func (t *Tokenizer) Train(trainer Trainer, files []string) error {
 
 // processChunk reads file chunk and processes it to word-count and sends off to channel
 // offset: start bound
-// limit: end bound
+// limit: size of the chunk; the chunk holds the lines that start in it
 // filename: file path includes file name
 // channel: channel to send proccessed words to.
-// current: cummulative point where the file processing stops.
 // trainer: Trainer to process tokens
-func (t *Tokenizer) processChunk(offset int64, limit int64, filename string, channel chan (map[string]int), trainer Trainer) (current int64) {
+func (t *Tokenizer) processChunk(offset int64, limit int64, filename string, channel chan (map[string]int), trainer Trainer) {
 	file, err := os.Open(filename)
 	if err != nil {
 		panic(err)
 	}
 	defer file.Close()
 
-	// move the pointer of the file to the start of designated chunk
-	file.Seek(offset, 0) // 0 means relative to the origin of file
+	// move the pointer of the file to the start of designated chunk, or rather
+	// to the byte before it, which tells whether a line starts there
+	current := offset
+	if offset > 0 {
+		current = offset - 1
+	}
+	file.Seek(current, 0) // 0 means relative to the origin of file
 
 	scanner := bufio.NewScanner(file)
 	buf := make([]byte, 0, trainBufferSize) // initial buffer
 	scanner.Buffer(buf, trainMaxLine)       // max buffer size = 2GB
 
-	var cummulativeSize int64
+	// current is where the next line starts
+	scanner.Split(func(data []byte, atEOF bool) (advance int, token []byte, err error) {
+		advance, token, err = bufio.ScanLines(data, atEOF)
+		current += int64(advance)
+		return advance, token, err
+	})
 
-	for scanner.Scan() {
-		// Stop if read size has exceed the chunk size
-		cummulativeSize += int64(len(scanner.Bytes()))
-		if cummulativeSize > limit {
-			break
-		}
+	// The line reaching into this chunk belongs to the chunk it starts in
+	if offset > 0 && !scanner.Scan() {
+		return
+	}
 
+	for current < offset+limit && scanner.Scan() {
 		// line words
 		lwords := make(map[string]int)
 		var line string
@@ -950,8 +956,6 @@ func (t *Tokenizer) processChunk(offset int64, limit int64, filename string, cha
 		channel <- lwords
 
 	}
-
-	return cummulativeSize
 }
 
 /*
-- 
2.43.0


From 5449986020311d3d7f2f74aa38cda626340cac5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:39 +0000
Subject: [PATCH 12/46] fix: training returns an error when it cannot read or
 process its files

---
 tokenizer.go | 48 +++++++++++++++++++++++++++---------------------
 1 file changed, 27 insertions(+), 21 deletions(-)

diff --git a/tokenizer.go b/tokenizer.go
index 731236b..84115ab 100644
--- a/tokenizer.go
+++ b/tokenizer.go
@@ -758,6 +758,7 @@ func (t *Tokenizer) Save(path string, pretty bool) (err error) {
 func (t *Tokenizer) Train(trainer Trainer, files []string) error {
 	type Job struct {
 		File     string
+		Size     int64
 		Progress *progressbar.ProgressBar
 	}
 
@@ -768,16 +769,16 @@ func (t *Tokenizer) Train(trainer Trainer, files []string) error {
 	doneChan := make(chan (bool), 1)
 	dict := make(map[string]int)
 
-	scanWG := new(sync.WaitGroup)
+	var scanGroup errgroup.Group
 
 	for _, f := range files {
 		fsize, err := util.FileSize(f)
 		if err != nil {
-			log.Fatal(err)
+			return err
 		}
 		bar := progressbar.New(int(fsize))
 
-		jobs = append(jobs, Job{f, bar})
+		jobs = append(jobs, Job{f, fsize, bar})
 	}
 
 	// Step 1. scan text files by chunks in goroutines. In each goroutine,
@@ -796,24 +797,20 @@ func (t *Tokenizer) Train(trainer Trainer, files []string) error {
 		file := jobs[currentJob].File
 		var limit int64 = trainChunkSize
 
-		fi, err := os.Stat(file)
-		if err != nil {
-			return err
-		}
-		fsize := float64(fi.Size())
+		fsize := float64(jobs[currentJob].Size)
 
 		chunkNum := int(math.Ceil(fsize / float64(limit)))
 
 		// Setup some workers to process
 		for n := 1; n <= chunkNum; n++ {
-			scanWG.Add(1)
-
-			go func(n int, file string) {
+			scanGroup.Go(func() error {
 				// start reading file chunk by chunk
-				t.processChunk(int64(n-1)*limit, limit, file, wChan, trainer)
+				if err := t.processChunk(int64(n-1)*limit, limit, file, wChan, trainer); err != nil {
+					return err
+				}
 				fmt.Printf("File chunk %d has been completed\n", n)
-				scanWG.Done()
-			}(n, file)
+				return nil
+			})
 		}
 	}
 
@@ -838,13 +835,18 @@ func (t *Tokenizer) Train(trainer Trainer, files []string) error {
 	}()
 
 	// wait for all goroutines to complete
-	scanWG.Wait()
+	scanErr := scanGroup.Wait()
 	close(wChan)
 
 	// Wait for dictionary to process all words then close
 	<-doneChan
 	close(doneChan)
 
+	// A part of the words is no corpus to train on
+	if scanErr != nil {
+		return scanErr
+	}
+
 	fmt.Printf("Dictionary length: %v words\n", len(dict))
 	// // Print out some samples
 	// var count = 0
@@ -872,10 +874,10 @@ func (t *Tokenizer) Train(trainer Trainer, files []string) error {
 // filename: file path includes file name
 // channel: channel to send proccessed words to.
 // trainer: Trainer to process tokens
-func (t *Tokenizer) processChunk(offset int64, limit int64, filename string, channel chan (map[string]int), trainer Trainer) {
+func (t *Tokenizer) processChunk(offset int64, limit int64, filename string, channel chan (map[string]int), trainer Trainer) error {
 	file, err := os.Open(filename)
 	if err != nil {
-		panic(err)
+		return err
 	}
 	defer file.Close()
 
@@ -885,7 +887,9 @@ func (t *Tokenizer) processChunk(offset int64, limit int64, filename string, cha
 	if offset > 0 {
 		current = offset - 1
 	}
-	file.Seek(current, 0) // 0 means relative to the origin of file
+	if _, err := file.Seek(current, 0); err != nil { // 0 means relative to the origin of file
+		return err
+	}
 
 	scanner := bufio.NewScanner(file)
 	buf := make([]byte, 0, trainBufferSize) // initial buffer
@@ -900,7 +904,7 @@ func (t *Tokenizer) processChunk(offset int64, limit int64, filename string, cha
 
 	// The line reaching into this chunk belongs to the chunk it starts in
 	if offset > 0 && !scanner.Scan() {
-		return
+		return scanner.Err()
 	}
 
 	for current < offset+limit && scanner.Scan() {
@@ -919,13 +923,13 @@ func (t *Tokenizer) processChunk(offset int64, limit int64, filename string, cha
 
 		normalized, err := t.doNormalize(line)
 		if err != nil {
-			log.Fatalf("call 'doNormalize' method error: %v\n", err)
+			return fmt.Errorf("call 'doNormalize' method error: %w", err)
 		}
 
 		pretok := NewPreTokenizedStringFromNS(normalized)
 		pretokenized, err := t.doPreTokenize(pretok)
 		if err != nil {
-			log.Fatalf("call 'doPreTokenize' method error: %v\n", err)
+			return fmt.Errorf("call 'doPreTokenize' method error: %w", err)
 		}
 
 		// NOTE. should we get OffsetType as input parameter: either Byte or Char?
@@ -956,6 +960,8 @@ func (t *Tokenizer) processChunk(offset int64, limit int64, filename string, cha
 		channel <- lwords
 
 	}
+
+	return scanner.Err()
 }
 
 /*
-- 
2.43.0


From d72f67015117b9444e547ef672b52f63c3b161b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:39 +0000
Subject: [PATCH 13/46] fix: BPE training on many words counts the pairs of
 every worker

---
 model/bpe/trainer.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/model/bpe/trainer.go b/model/bpe/trainer.go
index 0655c21..e4d9b7a 100644
--- a/model/bpe/trainer.go
+++ b/model/bpe/trainer.go
@@ -427,7 +427,7 @@ func (bt *BpeTrainer) countPairs(words []Word, counts []int, progress interface{
 
 				// fmt.Printf("Word: %v\n", word)
 				var window = 2
-				for x := 0; i < len(word.Symbols)-1; x += window - 1 {
+				for x := 0; x < len(word.Symbols)-1; x += window - 1 {
 					y := x + window
 					if y > len(word.Symbols) {
 						// TODO: should we stop when last chunk < chunk size or we just return it
@@ -489,7 +489,13 @@ func (bt *BpeTrainer) countPairs(words []Word, counts []int, progress interface{
 			}
 
 			for pair, hashSet := range res.WT {
-				whereToUpdate[pair] = hashSet
+				if _, ok := whereToUpdate[pair]; !ok {
+					whereToUpdate[pair] = hashSet
+					continue
+				}
+				for pos := range hashSet {
+					whereToUpdate[pair][pos] = struct{}{}
+				}
 			}
 		}
 
-- 
2.43.0


From a9cba084059d4a6f00997b35b1df1cac6d0c533e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:39 +0000
Subject: [PATCH 14/46] fix: BPE training breaks ties the same way every time

---
 model/bpe/trainer.go | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/model/bpe/trainer.go b/model/bpe/trainer.go
index e4d9b7a..c9a333a 100644
--- a/model/bpe/trainer.go
+++ b/model/bpe/trainer.go
@@ -6,7 +6,6 @@ import (
 	"sort"
 	"strings"
 	"sync"
-	"time"
 
 	"github.com/emirpasic/gods/trees/binaryheap"
 	"github.com/emirpasic/gods/utils"
@@ -28,7 +27,7 @@ type TMerge struct {
 	Pair  Pair
 	Count int
 	Pos   UintSet
-	Time  time.Time
+	Step  int // number of merges made when this one was found
 }
 
 // NOTE: there exists `Config`
@@ -664,10 +663,15 @@ func (bt *BpeTrainer) train(wordCounts map[string]int) (BPE, []tokenizer.AddedTo
 		c2 := b.(TMerge).Count
 
 		if c1 == c2 {
-			aTime := a.(TMerge).Time
-			bTime := b.(TMerge).Time
-
-			return utils.TimeComparator(bTime, aTime)
+			// the latest first, then in the order of the pairs
+			if s1, s2 := a.(TMerge).Step, b.(TMerge).Step; s1 != s2 {
+				return utils.IntComparator(s2, s1)
+			}
+			p1, p2 := a.(TMerge).Pair, b.(TMerge).Pair
+			if p1.C1 != p2.C1 {
+				return utils.IntComparator(p1.C1, p2.C1)
+			}
+			return utils.IntComparator(p1.C2, p2.C2)
 		}
 
 		return utils.IntComparator(c2, c1)
@@ -849,7 +853,7 @@ func (bt *BpeTrainer) train(wordCounts map[string]int) (BPE, []tokenizer.AddedTo
 			// fmt.Printf("pair chars: '%v%v' - pair: %v - count: %v - pos: %v\n", char1, char2, pair, count, pos)
 			if count > 0 {
 				queue.Push(TMerge{
-					pair, count, pos, time.Now(),
+					pair, count, pos, len(merges),
 				})
 			}
 		}
-- 
2.43.0


From d69d4f7d3a70cb85628fcbaf9453977de6f45010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:39 +0000
Subject: [PATCH 15/46] fix: BPE training puts the subword prefix and suffix,
 not their addresses, into tokens

---
 model/bpe/trainer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/model/bpe/trainer.go b/model/bpe/trainer.go
index c9a333a..5483c6d 100644
--- a/model/bpe/trainer.go
+++ b/model/bpe/trainer.go
@@ -322,7 +322,7 @@ func (bt *BpeTrainer) tokenizeWords(wc map[string]int, w2id map[string]int, id2w
 				// Add the `continuingSubwordPrefix` if relevant
 				if i == 0 { // first `char`
 					if prefix := bt.ContinuingSubwordPrefix; prefix != nil {
-						s = fmt.Sprintf("%v%v", &prefix, c)
+						s = fmt.Sprintf("%v%v", *prefix, c)
 					} else {
 						s = c
 					}
@@ -333,7 +333,7 @@ func (bt *BpeTrainer) tokenizeWords(wc map[string]int, w2id map[string]int, id2w
 				// Add the `endOfWordSuffix` if relevant
 				if i == len(chars)-1 { // last `char`
 					if suffix := bt.EndOfWordSuffix; suffix != nil {
-						s = fmt.Sprintf("%v%v", &suffix, c)
+						s = fmt.Sprintf("%v%v", *suffix, c)
 					} else {
 						s = c
 					}
-- 
2.43.0


From 25495f9299fd356898c11c29c49b8c88f3cf5344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:24 +0000
Subject: [PATCH 16/46] fix: a cached file appears under its name only when it
 is complete

---
 file-util.go | 65 ++++++++++++++++++++++++++++++----------------------
 1 file changed, 38 insertions(+), 27 deletions(-)

diff --git a/file-util.go b/file-util.go
index 350dc9c..5485045 100644
--- a/file-util.go
+++ b/file-util.go
@@ -3,7 +3,6 @@ package tokenizer
 import (
 	"fmt"
 	"io"
-	"log"
 	"net/http"
 	"os"
 	"path"
@@ -103,22 +102,7 @@ func isValidURL(url string) bool {
 // the entire file into memory. An `io.TeeReader` is passed into Copy()
 // to report progress on the download.
 func downloadFile(url string, filepath string) error {
-	// Create path if not existing
-	dir := path.Dir(filepath)
 	filename := path.Base(filepath)
-	if _, err := os.Stat(dir); os.IsNotExist(err) {
-		if err := os.MkdirAll(dir, 0755); err != nil {
-			log.Fatal(err)
-		}
-	}
-
-	// Create the file with .tmp extension, so that we won't overwrite a
-	// file until it's downloaded fully
-	out, err := os.Create(filepath + ".tmp")
-	if err != nil {
-		return err
-	}
-	defer out.Close()
 
 	// Get the data
 	resp, err := http.Get(url)
@@ -153,7 +137,7 @@ func downloadFile(url string, filepath string) error {
 
 	// Create our bytes counter and pass it to be used alongside our writer
 	counter := &writeCounter{FileSize: downloadSize}
-	_, err = io.Copy(out, io.TeeReader(resp.Body, counter))
+	err = writeFile(filepath, io.TeeReader(resp.Body, counter))
 	if err != nil {
 		return err
 	}
@@ -162,13 +146,46 @@ func downloadFile(url string, filepath string) error {
 	// The progress use the same line so print a new line once it's finished downloading
 	fmt.Println()
 
-	// Rename the tmp file back to the original file
-	err = os.Rename(filepath+".tmp", filepath)
+	return nil
+}
+
+// writeFile writes everything read from src to the file dst. The file appears
+// under its name only when it is complete and on disk.
+func writeFile(dst string, src io.Reader) (err error) {
+	// Create path if not existing
+	dir := path.Dir(dst)
+	if err := os.MkdirAll(dir, 0755); err != nil {
+		return err
+	}
+
+	// Create a file of our own with .tmp extension, so that we won't overwrite a
+	// file until it's written fully
+	out, err := os.CreateTemp(dir, path.Base(dst)+".*.tmp")
 	if err != nil {
 		return err
 	}
+	defer func() {
+		if err != nil {
+			out.Close()
+			os.Remove(out.Name())
+		}
+	}()
 
-	return nil
+	if _, err = io.Copy(out, src); err != nil {
+		return err
+	}
+	if err = out.Chmod(0644); err != nil {
+		return err
+	}
+	if err = out.Sync(); err != nil {
+		return err
+	}
+	if err = out.Close(); err != nil {
+		return err
+	}
+
+	// Rename the tmp file back to the original file
+	return os.Rename(out.Name(), dst)
 }
 
 // writeCounter counts the number of bytes written to it. By implementing the Write method,
@@ -227,13 +244,7 @@ func copyFile(src, dst string) error {
 	}
 	defer source.Close()
 
-	destination, err := os.Create(dst)
-	if err != nil {
-		return err
-	}
-	defer destination.Close()
-	_, err = io.Copy(destination, source)
-	return err
+	return writeFile(dst, source)
 }
 
 // CleanCache removes all files cached in transformer cache directory `CachedDir`.
-- 
2.43.0


From 3ee97688ac3741cfafdb8fdc86c5aea62dc7eac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:24 +0000
Subject: [PATCH 17/46] fix: resolving a remote file requests it once and
 closes every response

---
 file-util.go | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/file-util.go b/file-util.go
index 5485045..7c64e30 100644
--- a/file-util.go
+++ b/file-util.go
@@ -72,18 +72,13 @@ func CachedPath(modelNameOrPath, fileName string) (resolvedPath string, err erro
 	url := fmt.Sprintf("%s/%s/resolve/main/%s", HFpath, modelNameOrPath, fileName)
 	// url := fmt.Sprintf("%s/%s/raw/main/%s", HFpath, modelNameOrPath, fileName)
 	if isValidURL(url) {
-		if _, err := http.Get(url); err == nil {
-			err := downloadFile(url, cachedFileCandidate)
-			if err != nil {
-				err = fmt.Errorf("CachedPath() failed at trying to download file: %w", err)
-				return "", err
-			}
-
-			return cachedFileCandidate, nil
-		} else {
-			err = fmt.Errorf("CachedPath() failed: Unable to parse '%v' as a URL or as a local path.\n", url)
+		err := downloadFile(url, cachedFileCandidate)
+		if err != nil {
+			err = fmt.Errorf("CachedPath() failed at trying to download file: %w", err)
 			return "", err
 		}
+
+		return cachedFileCandidate, nil
 	}
 
 	// Not resolves
-- 
2.43.0


From bb6b541c15bb9473baa085b6dd6eaad02a4c37e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:24 +0000
Subject: [PATCH 18/46] fix: concurrent callers initialise the cache directory
 once, and failing to returns an error

---
 file-util.go |  4 ++--
 init.go      | 32 ++++++++++++++++++++++++--------
 2 files changed, 26 insertions(+), 10 deletions(-)

diff --git a/file-util.go b/file-util.go
index 7c64e30..275a3a8 100644
--- a/file-util.go
+++ b/file-util.go
@@ -45,8 +45,8 @@ var (
 // Custom `CachedDir` can be changed by setting with environment `GO_TRANSFORMER`
 func CachedPath(modelNameOrPath, fileName string) (resolvedPath string, err error) {
 
-	if CachedDir == "NOT_SETTING" {
-		initCachePath()
+	if err := initCachePath(); err != nil {
+		return "", fmt.Errorf("CachedPath() failed at setting up the cache directory: %w", err)
 	}
 
 	// Resolves to "candidate" filename at `CacheDir`
diff --git a/init.go b/init.go
index b6f49f1..d9c6242 100644
--- a/init.go
+++ b/init.go
@@ -4,32 +4,48 @@ import (
 	"fmt"
 	"log"
 	"os"
+	"sync"
 )
 
 var (
 	CachedDir       string = "NOT_SETTING"
 	tokenizerEnvKey string = "GO_TOKENIZER"
+
+	cachedDirMu sync.Mutex // held while CachedDir is being initialised
 )
 
-func initCachePath() {
+func initCachePath() error {
+	cachedDirMu.Lock()
+	defer cachedDirMu.Unlock()
+	if CachedDir != "NOT_SETTING" {
+		return nil
+	}
+
 	// default path: {$HOME}/.cache/tokenizer
 	homeDir := os.Getenv("HOME")
-	CachedDir = fmt.Sprintf("%s/.cache/tokenizer", homeDir)
+	dir := fmt.Sprintf("%s/.cache/tokenizer", homeDir)
 
-	initEnv()
+	dir, err := initEnv(dir)
+	if err != nil {
+		return err
+	}
+	CachedDir = dir
 
 	log.Printf("INFO: CachedDir=%q\n", CachedDir)
+	return nil
 }
 
-func initEnv() {
+func initEnv(dir string) (string, error) {
 	val := os.Getenv(tokenizerEnvKey)
 	if val != "" {
-		CachedDir = val
+		dir = val
 	}
 
-	if _, err := os.Stat(CachedDir); os.IsNotExist(err) {
-		if err := os.MkdirAll(CachedDir, 0755); err != nil {
-			log.Fatal(err)
+	if _, err := os.Stat(dir); os.IsNotExist(err) {
+		if err := os.MkdirAll(dir, 0755); err != nil {
+			return "", err
 		}
 	}
+
+	return dir, nil
 }
-- 
2.43.0


From 584b35e00f327cac144288788f1ef93d52bf7bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:07 +0000
Subject: [PATCH 19/46] fix: the BPE word cache accepts new keys while it has
 room

---
 model/bpe/cache.go | 19 ++++---------------
 1 file changed, 4 insertions(+), 15 deletions(-)

diff --git a/model/bpe/cache.go b/model/bpe/cache.go
index ccc12aa..e639331 100644
--- a/model/bpe/cache.go
+++ b/model/bpe/cache.go
@@ -69,21 +69,10 @@ func (c *Cache) SetValues(values []CacheItem) {
 	c.mux.Lock()
 	defer c.mux.Unlock()
 
-	// Check if we're already at capacity
-	if len(c.cmap) >= c.Capacity {
-		return
-	}
-
-	// Calculate how many items we can add
-	remaining := c.Capacity - len(c.cmap)
-	if remaining <= 0 {
-		return
-	}
-
-	// Add items up to capacity
-	for i, v := range values {
-		if i >= remaining {
-			break
+	// Only a key that is not in the cache yet needs room
+	for _, v := range values {
+		if _, ok := c.cmap[v.Key]; !ok && len(c.cmap) >= c.Capacity {
+			continue
 		}
 		c.cmap[v.Key] = v.Value
 	}
-- 
2.43.0


From 0b49bfd7e0d2cffe3cd25a425d4aac158a6d66d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:55 +0000
Subject: [PATCH 20/46] fix: Roberta post-processing without trimmed offsets no
 longer drops the encoding

---
 processor/roberta.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/processor/roberta.go b/processor/roberta.go
index 1c921b0..185fdef 100644
--- a/processor/roberta.go
+++ b/processor/roberta.go
@@ -67,6 +67,7 @@ func (rp *RobertaProcessing) Process(encoding, pairEncoding *tokenizer.Encoding,
 		newPairEncoding         *tokenizer.Encoding
 		newOverflowPairEncoding []tokenizer.Encoding
 	)
+	newEncoding, newPairEncoding = encoding, pairEncoding
 	if rp.trimOffsets {
 		newEncoding = pretokenizer.ProcessOffsets(encoding, rp.addPrefixSpace)
 
-- 
2.43.0


From d386f089a90a49b84e32b0ce79d66530f03a3e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:31 +0000
Subject: [PATCH 21/46] fix: padding reaches the overflowing parts of
 overflowing parts

---
 encoding.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/encoding.go b/encoding.go
index 54ede8a..fd9422c 100644
--- a/encoding.go
+++ b/encoding.go
@@ -559,7 +559,7 @@ func (e *Encoding) Pad(targetLength, padId, padTypeId int, padToken string, dire
 	// 1. Overflowing
 	var overflowing []Encoding
 	for _, o := range e.Overflowing {
-		padded := o.pad(targetLength, padId, padTypeId, padToken, direction)
+		padded := o.Pad(targetLength, padId, padTypeId, padToken, direction)
 		overflowing = append(overflowing, *padded)
 	}
 	e.Overflowing = overflowing
-- 
2.43.0


From cc579669dadb3da072376b89e39b1a4d2a36ca75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:03 +0000
Subject: [PATCH 22/46] fix: training a tokenizer whose special tokens the new
 model lacks no longer exits

---
 added-vocabulary.go | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/added-vocabulary.go b/added-vocabulary.go
index 126a7ee..0450898 100644
--- a/added-vocabulary.go
+++ b/added-vocabulary.go
@@ -304,11 +304,7 @@ func (av *AddedVocabulary) AddTokens(tokens []AddedToken, model Model, normalize
 			ignored++
 			id = i
 		} else {
-			id = model.GetVocabSize() + len(av.addedTokenMap)
-			// the ids of the model are not necessarily contiguous
-			for _, used := av.IdToToken(id, model); used; _, used = av.IdToToken(id, model) {
-				id++
-			}
+			id = av.newId(model)
 			av.addedTokenMap[token.Content] = id
 
 			if _, ok := av.specialTokensSet[token.Content]; !ok {
@@ -326,6 +322,16 @@ func (av *AddedVocabulary) AddTokens(tokens []AddedToken, model Model, normalize
 	return len(tokens) - ignored
 }
 
+// newId returns an id that neither the model nor an added token has
+func (av *AddedVocabulary) newId(model Model) int {
+	id := model.GetVocabSize() + len(av.addedTokenMap)
+	// the ids of the model are not necessarily contiguous
+	for _, used := av.IdToToken(id, model); used; _, used = av.IdToToken(id, model) {
+		id++
+	}
+	return id
+}
+
 type tokenId struct {
 	token AddedToken
 	id    int
@@ -342,7 +348,15 @@ func (av *AddedVocabulary) refreshAddedTokens(model Model, normalizer normalizer
 	for _, token := range tokens {
 		id, ok := av.TokenToId(token.Content, model)
 		if !ok {
-			log.Fatalf("Missing additional token.\n")
+			// The model that had this token has been replaced
+			for i, content := range av.addedTokenMapR {
+				if content == token.Content {
+					delete(av.addedTokenMapR, i)
+				}
+			}
+			id = av.newId(model)
+			av.addedTokenMap[token.Content] = id
+			av.addedTokenMapR[id] = token.Content
 		}
 
 		pattern := token.GetPattern(normalizer)
-- 
2.43.0


From 5fe51454e05b5f498366eddb3db037d0b3dcf53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:03 +0000
Subject: [PATCH 23/46] fix: training does not process the partial line left by
 a read error

---
 tokenizer.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tokenizer.go b/tokenizer.go
index 84115ab..e7ee762 100644
--- a/tokenizer.go
+++ b/tokenizer.go
@@ -908,6 +908,11 @@ func (t *Tokenizer) processChunk(offset int64, limit int64, filename string, cha
 	}
 
 	for current < offset+limit && scanner.Scan() {
+		// what is left after a read error is no complete line
+		if err := scanner.Err(); err != nil {
+			return err
+		}
+
 		// line words
 		lwords := make(map[string]int)
 		var line string
-- 
2.43.0


From 5a1331e0f1df4e66d0da6e5b9e2ba2f33055e5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:22 +0000
Subject: [PATCH 24/46] fix: NFKD returns a string that is already normalized
 instead of nil

---
 normalizer/normalized.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/normalizer/normalized.go b/normalizer/normalized.go
index e1a4212..1c234c5 100644
--- a/normalizer/normalized.go
+++ b/normalizer/normalized.go
@@ -954,7 +954,7 @@ func (n *NormalizedString) NFKD() (retVal *NormalizedString) {
 	s := n.normalized
 	isNFKD := norm.Form.IsNormalString(norm.NFKD, s)
 	if isNFKD {
-		return
+		return n
 	}
 
 	var (
-- 
2.43.0


From 7adbbf14e66e5d20d58c5727b10d8904cd942ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:43 +0000
Subject: [PATCH 25/46] fix: pre-tokenizers that normalize keep the added
 tokens found in the text

---
 pretokenizer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pretokenizer.go b/pretokenizer.go
index 6a55545..23e33e0 100644
--- a/pretokenizer.go
+++ b/pretokenizer.go
@@ -101,11 +101,11 @@ func (pt *PreTokenizedString) Normalize(nFn func(*normalizer.NormalizedString) *
 	var nSplits []Split
 
 	for _, split := range pt.splits {
+		newSplit := split
 		if split.tokens == nil {
-			newSplit := split
 			newSplit.normalized = nFn(split.normalized)
-			nSplits = append(nSplits, newSplit)
 		}
+		nSplits = append(nSplits, newSplit)
 	}
 
 	pt.splits = nSplits
-- 
2.43.0


From 44e46d877c8f8125d798c3e26880302b5c1e00d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:17 +0000
Subject: [PATCH 26/46] fix: every added token in a text is found, not only
 those in the order of their ids

---
 added-vocabulary.go | 42 +++++++++++++++++-------------------------
 1 file changed, 17 insertions(+), 25 deletions(-)

diff --git a/added-vocabulary.go b/added-vocabulary.go
index 0450898..d07c50f 100644
--- a/added-vocabulary.go
+++ b/added-vocabulary.go
@@ -390,19 +390,17 @@ type idOffsets struct {
 // helper functions to sort idOffsets
 // By implement sort interface of package sort
 
-// byStart sort by offset.Start
+// byStart sort by offset.Start then by id
 type byStart []idOffsets
 
-func (s byStart) Len() int           { return len(s) }
-func (s byStart) Less(i, j int) bool { return s[i].offsets[0] < s[j].offsets[0] }
-func (s byStart) Swap(i, j int)      { s[i], s[j] = s[j], s[i] }
-
-// byId sort by id
-type byId []idOffsets
-
-func (bi byId) Len() int           { return len(bi) }
-func (bi byId) Less(i, j int) bool { return bi[i].id < bi[j].id }
-func (bi byId) Swap(i, j int)      { bi[i], bi[j] = bi[j], bi[i] }
+func (s byStart) Len() int { return len(s) }
+func (s byStart) Less(i, j int) bool {
+	if s[i].offsets[0] != s[j].offsets[0] {
+		return s[i].offsets[0] < s[j].offsets[0]
+	}
+	return s[i].id < s[j].id
+}
+func (s byStart) Swap(i, j int) { s[i], s[j] = s[j], s[i] }
 
 // findMatches finds any AddedToken in the given sentence, using the provided MatchingSet.
 // This method returns a list "splits", each of them being a pair of Offsets
@@ -428,7 +426,6 @@ func (av *AddedVocabulary) findMatches(sentence string, splitRe matchingSet) (re
 
 	// Sort id-offsets by start then by pattern id
 	sort.Sort(byStart(ioPairs))
-	sort.Sort(byId(ioPairs))
 
 	// Select the matches, if they overlap, keep them
 	var (
@@ -449,20 +446,15 @@ func (av *AddedVocabulary) findMatches(sentence string, splitRe matchingSet) (re
 		// Find out whether having overlapping neighbours.
 		// If so, keep the one with lowest Idx. All other will be skipped
 		// because `currentOffsets` will have been increased.
-		if i+1 < len(ioPairs) {
-			overlapPairs := ioPairs[i:]
-			sort.Sort(byId(overlapPairs))
-			lowestPair := overlapPairs[0] // lowest Id one
-			splits = append(splits, lowestPair)
-			currentOffsets = ioPair.offsets[1]
-			i++
-			continue
+		lowest := i
+		for j := i + 1; j < len(ioPairs) && ioPairs[j].offsets[0] < ioPair.offsets[1]; j++ {
+			if ioPairs[j].id < ioPairs[lowest].id {
+				lowest = j
+			}
 		}
-
-		// Not found overlap neighbours. Just apply itself
-		splits = append(splits, ioPair)
-		currentOffsets = ioPair.offsets[1]
-		i++
+		splits = append(splits, ioPairs[lowest])
+		currentOffsets = ioPairs[lowest].offsets[1]
+		i = lowest + 1
 	}
 
 	// Also, insert the splits in-between added tokens, to split the entire string
-- 
2.43.0


From 3acd9cb62d178cb1f86cbc8e18aafda4f8bdad1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:05 +0000
Subject: [PATCH 27/46] fix: BPE dropout could repeat its skipped merges
 forever

MergeAll put the merges it had skipped back into the queue and kept them in
the list of skipped ones, so every later merge put them back once more and
the queue never became empty.
---
 model/bpe/word.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/model/bpe/word.go b/model/bpe/word.go
index 03b6b21..5337ce7 100644
--- a/model/bpe/word.go
+++ b/model/bpe/word.go
@@ -324,6 +324,7 @@ func (w *Word) MergeAll(merges map[Pair]PairVal, dropoutOpt ...float32) {
 			for _, s := range skip {
 				queue.Push(s)
 			}
+			skip = skip[:0]
 
 			if (w.Symbols[top.(Merge).Pos]).Len > 0 {
 				if (w.Symbols[top.(Merge).Pos]).Next == -1 {
-- 
2.43.0


From 20f189301648a008acac68d7b7c21600bb31beb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:37 +0000
Subject: [PATCH 28/46] fix: the regular expression of a Replace normalizer or
 decoder is read from its configuration

The key was looked up one level too high, so the pattern was empty and
matched nothing, and it would have been taken literally.
---
 pretrained/decoder.go    | 4 ++--
 pretrained/normalizer.go | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pretrained/decoder.go b/pretrained/decoder.go
index afff515..b73d924 100644
--- a/pretrained/decoder.go
+++ b/pretrained/decoder.go
@@ -167,9 +167,9 @@ func createReplaceDecoder(params *util.Params) (*normalizer.Replace, error) {
 		pattern = pparams.Get("String").(string)
 		patternType = normalizer.String
 
-	case params.Has("Regex"):
+	case pparams.Has("Regex"):
 		pattern = pparams.Get("Regex").(string)
-		patternType = normalizer.String
+		patternType = normalizer.Regex
 	}
 
 	content := params.Get("content").(string)
diff --git a/pretrained/normalizer.go b/pretrained/normalizer.go
index fa6bee3..63e0e23 100644
--- a/pretrained/normalizer.go
+++ b/pretrained/normalizer.go
@@ -110,9 +110,9 @@ func createReplaceNormalizer(params *util.Params) (normalizer.Normalizer, error)
 		pattern = pparams.Get("String").(string)
 		patternType = normalizer.String
 
-	case params.Has("Regex"):
+	case pparams.Has("Regex"):
 		pattern = pparams.Get("Regex").(string)
-		patternType = normalizer.String
+		patternType = normalizer.Regex
 	}
 
 	content := params.Get("content").(string)
-- 
2.43.0


From b55e610a9bb4a954f7cd5c78fb6ab68fa0c6e19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:37 +0000
Subject: [PATCH 29/46] fix: the string of a Split pre-tokenizer in a
 configuration is no regular expression

---
 pretrained/pretokenizer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pretrained/pretokenizer.go b/pretrained/pretokenizer.go
index 87eb7fb..e45efe8 100644
--- a/pretrained/pretokenizer.go
+++ b/pretrained/pretokenizer.go
@@ -188,7 +188,7 @@ func createSplitPreTokenizer(params *util.Params) (tokenizer.PreTokenizer, error
 	if v, ok := patternMap["Regex"]; ok {
 		pattern = normalizer.NewRegexpPattern(v.(string))
 	} else if v, ok := patternMap["String"]; ok {
-		pattern = normalizer.NewRegexpPattern(v.(string))
+		pattern = normalizer.NewStringPattern(v.(string))
 	} else {
 		err := fmt.Errorf("Unsupported pattern: %#v\n", patternMap)
 		return nil, err
-- 
2.43.0


From d632b84474deef26aae3d3816c3bf0ccf8d07e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:37 +0000
Subject: [PATCH 30/46] fix: a WordPiece model gets the subword prefix of its
 configuration

It was read and dropped, and looked up under another key.
---
 model/wordpiece/wordpiece.go | 2 +-
 pretrained/model.go          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/model/wordpiece/wordpiece.go b/model/wordpiece/wordpiece.go
index a153a38..d41bfc8 100644
--- a/model/wordpiece/wordpiece.go
+++ b/model/wordpiece/wordpiece.go
@@ -421,7 +421,7 @@ func New(
 	if opts.Has("unk_token") {
 		unkToken = opts.Get("unk_token").(string)
 	}
-	if opts.Has("continuingSubwordPrefix") {
+	if opts.Has("continuing_subword_prefix") {
 		continuingSubwordPrefix = opts.Get("continuing_subword_prefix").(string)
 	}
 	if opts.Has("max_input_chars_per_word") {
diff --git a/pretrained/model.go b/pretrained/model.go
index 507790d..3a01e3c 100644
--- a/pretrained/model.go
+++ b/pretrained/model.go
@@ -128,7 +128,7 @@ func createWordPiece(params *util.Params) (tokenizer.Model, error) {
 	}
 	if params.Has("continuing_subword_prefix") {
 		v := params.Get("continuing_subword_prefix").(string)
-		opts.Get("continuing_subword_prefix", v)
+		opts.Set("continuing_subword_prefix", v)
 	}
 
 	if params.Has("max_input_chars_per_word") {
-- 
2.43.0


From 2562afb721ff1df5505c6ba22dbb7578968556f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:10 +0000
Subject: [PATCH 31/46] fix: BPE merges are read with the subword prefix they
 were trained with

---
 model/bpe/bpe.go | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/model/bpe/bpe.go b/model/bpe/bpe.go
index 2275bf9..e6da043 100644
--- a/model/bpe/bpe.go
+++ b/model/bpe/bpe.go
@@ -126,6 +126,7 @@ func (bb *BpeBuilder) Build() (*BPE, error) {
 
 	// Read files if provided
 	if bb.config.files != nil {
+		bpe.ContinuingSubwordPrefix = bb.config.continuingSubwordPrefix
 		vocab, merges, err = bpe.ReadFiles(bb.config.files.vocab, bb.config.files.merges)
 		if err != nil {
 			return nil, err
@@ -252,6 +253,7 @@ func (b *BPE) ReadFiles(vocabF string, mergesF string) (*model.Vocab, *Merges, e
 	var (
 		vocab  model.Vocab
 		merges Merges = make(map[Pair]PairVal)
+		prefix        = b.ContinuingSubwordPrefix
 	)
 
 	err = json.Unmarshal(vocabBytes, &vocab)
@@ -304,7 +306,7 @@ func (b *BPE) ReadFiles(vocabF string, mergesF string) (*model.Vocab, *Merges, e
 
 		pair := Pair{a, b}
 		// newToken := fmt.Sprintf("%v%v", parts[0], parts[1])
-		newToken := fmt.Sprintf("%v%v", parts[0], parts[1])
+		newToken := mergedToken(parts[0], parts[1], prefix)
 		newId, ok := vocab[newToken]
 		if !ok {
 			err = fmt.Errorf("Read merge file error: key value for token: \"%s\" not found.", newToken)
@@ -605,7 +607,20 @@ func makeFilePath(filename string) error {
 	return os.MkdirAll(dirName, os.ModePerm)
 }
 
+// mergedToken returns the token that merging a and b makes. A part that
+// continues a word carries the prefix in b only.
+func mergedToken(a, b string, prefix *string) string {
+	if prefix != nil {
+		b = strings.TrimPrefix(b, *prefix)
+	}
+	return a + b
+}
+
 func CreateMerges(vocab map[string]int, mergesData []string) (*Merges, error) {
+	return createMerges(vocab, mergesData, nil)
+}
+
+func createMerges(vocab map[string]int, mergesData []string, prefix *string) (*Merges, error) {
 	var (
 		lineNum int    = 0
 		merges  Merges = make(map[Pair]PairVal)
@@ -633,7 +648,7 @@ func CreateMerges(vocab map[string]int, mergesData []string) (*Merges, error) {
 
 		pair := Pair{a, b}
 		// newToken := fmt.Sprintf("%v%v", parts[0], parts[1])
-		newToken := fmt.Sprintf("%v%v", parts[0], parts[1])
+		newToken := mergedToken(parts[0], parts[1], prefix)
 		newId, ok := vocab[newToken]
 		if !ok {
 			err := fmt.Errorf("Read merges error: key value for token: \"%s\" not found.", newToken)
@@ -660,7 +675,7 @@ func New(
 	continuingSubwordPrefix *string,
 	endOfWordSuffix *string,
 ) (*BPE, error) {
-	merges, err := CreateMerges(vocab, mergesData)
+	merges, err := createMerges(vocab, mergesData, continuingSubwordPrefix)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 296250fabf972484fd6183e7e450e1bd418b389f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:22 +0000
Subject: [PATCH 32/46] fix: only the first line of a merges file is taken for
 its header

---
 model/bpe/bpe.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/model/bpe/bpe.go b/model/bpe/bpe.go
index e6da043..2b4b295 100644
--- a/model/bpe/bpe.go
+++ b/model/bpe/bpe.go
@@ -8,7 +8,6 @@ import (
 	"io/ioutil"
 	"os"
 	"path/filepath"
-	"regexp"
 	"sort"
 
 	// "strconv"
@@ -275,12 +274,12 @@ func (b *BPE) ReadFiles(vocabF string, mergesF string) (*model.Vocab, *Merges, e
 	// end of file or hit any error. The error will be
 	// access by s.Err. If error caused by EOF it's value is nil.
 	var lineNum = 0
-	for s.Scan() {
+	for first := true; s.Scan(); first = false {
 		line := s.Text()
 
-		// Skip line with `#version`
-		re := regexp.MustCompile(`#version`)
-		if re.MatchString(line) {
+		// Skip the header `#version`: it can only be the first line, any
+		// other line is a merge even if its tokens read like that
+		if first && strings.HasPrefix(line, "#version") {
 			continue
 		}
 
-- 
2.43.0


From c4dfbb74ad495e91fa4272ab045b6e1fa03d49eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:06 +0000
Subject: [PATCH 33/46] fix: BPE training gives a merged token that reads like
 another its id

Two merges can produce the same text (or the text of an initial token). The
second one took a new id, which no vocabulary entry had, so the model could
not be saved and loaded back.
---
 model/bpe/trainer.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/model/bpe/trainer.go b/model/bpe/trainer.go
index 5483c6d..f5de887 100644
--- a/model/bpe/trainer.go
+++ b/model/bpe/trainer.go
@@ -784,10 +784,13 @@ func (bt *BpeTrainer) train(wordCounts map[string]int) (BPE, []tokenizer.AddedTo
 		newToken := fmt.Sprintf("%v%v", partA, partB)
 		// fmt.Printf("new token: %v\n", newToken)
 
-		// Insert new token
-		newTokenId := len(idToWord)
-		idToWord = append(idToWord, newToken)
-		wordToId[newToken] = newTokenId
+		// Insert new token, unless another merge or an initial token reads the same
+		newTokenId, exists := wordToId[newToken]
+		if !exists {
+			newTokenId = len(idToWord)
+			idToWord = append(idToWord, newToken)
+			wordToId[newToken] = newTokenId
+		}
 		merges = append(merges, TMerges{top.Pair, newTokenId})
 
 		type TChange struct {
-- 
2.43.0


From 641a8d383782ef7271805da5e8fa8e0c4c500e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:09 +0000
Subject: [PATCH 34/46] fix: saving a model its files cannot hold returns an
 error
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

Text vocabularies lose ids that are not 0, 1, 2, … and tokens with line
breaks, merges files tokens with spaces or without an entry in the
vocabulary, JSON bytes that are no UTF-8: saving reported success, and what
was loaded back was another model, or nothing. A first merge that reads like
the header of its file gets a header before it.
---
 model/bpe/bpe.go             | 19 +++++++++++++++++--
 model/unigram/unigram.go     |  7 +++++++
 model/wordlevel/wordlevel.go |  7 ++++++-
 model/wordpiece/wordpiece.go |  7 ++++++-
 4 files changed, 36 insertions(+), 4 deletions(-)

diff --git a/model/bpe/bpe.go b/model/bpe/bpe.go
index 2b4b295..f55ea91 100644
--- a/model/bpe/bpe.go
+++ b/model/bpe/bpe.go
@@ -13,6 +13,7 @@ import (
 	// "strconv"
 	"log"
 	"strings"
+	"unicode/utf8"
 
 	"github.com/sugarme/tokenizer"
 	"github.com/sugarme/tokenizer/model"
@@ -527,6 +528,13 @@ func (b BPE) Save(dir string, nameOpt ...string) error {
 		return err
 	}
 
+	// JSON cannot hold tokens that are no text
+	for token := range *b.Vocab {
+		if !utf8.ValidString(token) {
+			return fmt.Errorf("Save error: token %q is not valid UTF-8", token)
+		}
+	}
+
 	// Write vocab.json
 	var vocabData []byte
 	vocabData, err = json.Marshal(b.Vocab)
@@ -562,9 +570,16 @@ func (b BPE) Save(dir string, nameOpt ...string) error {
 	// Create lines of merges
 	for _, p := range pairRanks {
 		// line := fmt.Sprintf("%v %v", p.Pair.C1, p.Pair.C2)
-		c1, _ := b.IdToToken(p.Pair.C1)
-		c2, _ := b.IdToToken(p.Pair.C2)
+		c1, ok1 := b.IdToToken(p.Pair.C1)
+		c2, ok2 := b.IdToToken(p.Pair.C2)
 		line := fmt.Sprintf("%v %v", c1, c2)
+		// The file holds one merge a line, its tokens separated by a space
+		if !ok1 || !ok2 || strings.Count(line, " ") != 1 || strings.Contains(line, "\n") || strings.HasSuffix(line, "\r") {
+			return fmt.Errorf("Save error: a merges file cannot hold the merge of %q and %q", c1, c2)
+		}
+		if len(lines) == 0 && strings.HasPrefix(line, "#version") {
+			lines = append(lines, "#version: 0.2") // not to be taken for the header itself
+		}
 		lines = append(lines, line)
 	}
 
diff --git a/model/unigram/unigram.go b/model/unigram/unigram.go
index ef6a9aa..c9642c4 100644
--- a/model/unigram/unigram.go
+++ b/model/unigram/unigram.go
@@ -204,6 +204,13 @@ func (u *Unigram) Save(dir string, prefixOpt ...string) error {
 		return err
 	}
 
+	// JSON cannot hold tokens that are no text
+	for _, ts := range u.vocab {
+		if !utf8.ValidString(ts.Token) {
+			return fmt.Errorf("Save error: token %q is not valid UTF-8", ts.Token)
+		}
+	}
+
 	// Save vocab.json
 	vocabPath := filepath.Join(dir, prefix+"-vocab.json")
 	vocabFile, err := os.Create(vocabPath)
diff --git a/model/wordlevel/wordlevel.go b/model/wordlevel/wordlevel.go
index b57f331..e9b3387 100644
--- a/model/wordlevel/wordlevel.go
+++ b/model/wordlevel/wordlevel.go
@@ -6,6 +6,7 @@ import (
 	"os"
 	"path/filepath"
 	"sort"
+	"strings"
 
 	"github.com/sugarme/tokenizer"
 )
@@ -214,7 +215,11 @@ func (wl *WordLevel) Save(dir string, nameOpt ...string) (err error) {
 	})
 
 	// Create vocab lines
-	for _, item := range sVocab {
+	for i, item := range sVocab {
+		// The file holds no ids, and one token a line
+		if item.Value != i || strings.Contains(item.Key, "\n") || strings.HasSuffix(item.Key, "\r") {
+			return fmt.Errorf("Save error: a text vocabulary cannot hold token %q with id %v", item.Key, item.Value)
+		}
 		line := fmt.Sprintf("%v", item.Key)
 		lines = append(lines, line)
 	}
diff --git a/model/wordpiece/wordpiece.go b/model/wordpiece/wordpiece.go
index d41bfc8..f794311 100644
--- a/model/wordpiece/wordpiece.go
+++ b/model/wordpiece/wordpiece.go
@@ -7,6 +7,7 @@ import (
 	"os"
 	"path/filepath"
 	"sort"
+	"strings"
 
 	"github.com/sugarme/tokenizer"
 	"github.com/sugarme/tokenizer/model"
@@ -376,7 +377,11 @@ func (wp WordPiece) Save(dir string, nameOpt ...string) (err error) {
 	})
 
 	// Create vocab lines
-	for _, item := range sVocab {
+	for i, item := range sVocab {
+		// The file holds no ids, and one token a line
+		if item.Value != i || strings.Contains(item.Key, "\n") || strings.HasSuffix(item.Key, "\r") {
+			return fmt.Errorf("Save error: a text vocabulary cannot hold token %q with id %v", item.Key, item.Value)
+		}
 		line := fmt.Sprintf("%v", item.Key)
 		lines = append(lines, line)
 	}
-- 
2.43.0


From c964d3ef588e90f33a0fc807035525a5776ed55c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:10 +0000
Subject: [PATCH 35/46] fix: a saved Unigram model says whether it fuses
 unknown tokens

---
 model/unigram/unigram.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/model/unigram/unigram.go b/model/unigram/unigram.go
index c9642c4..35df11e 100644
--- a/model/unigram/unigram.go
+++ b/model/unigram/unigram.go
@@ -238,6 +238,7 @@ func (u *Unigram) Save(dir string, prefixOpt ...string) error {
 		"vocab":         vocabEntries,
 		"unk_id":        u.unkID,
 		"byte_fallback": u.bytesFallback,
+		"fuse_unk":      u.fuseUnk,
 	}
 
 	encoder := json.NewEncoder(vocabFile)
-- 
2.43.0


From 041dfef402745cb7572edc482659fdf8e0acff7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:33 +0000
Subject: [PATCH 36/46] fix: decoding with the Strip decoder no longer panics
 on an empty or wholly stripped token

---
 decoder/strip.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/decoder/strip.go b/decoder/strip.go
index dd428e2..c93ebe2 100644
--- a/decoder/strip.go
+++ b/decoder/strip.go
@@ -36,7 +36,7 @@ func (d *Strip) DecodeChain(tokens []string) []string {
 		chars := strings.Split(token, "")
 
 		startCut := 0
-		for i := 0; i < d.Start; i++ {
+		for i := 0; i < d.Start && i < len(chars); i++ {
 			c := chars[i]
 			if c == d.Content {
 				startCut = i + 1
@@ -47,7 +47,7 @@ func (d *Strip) DecodeChain(tokens []string) []string {
 		}
 
 		stopCut := len(chars)
-		for i := 0; i < d.Stop; i++ {
+		for i := 0; i < d.Stop && i < len(chars)-startCut; i++ {
 			index := len(chars) - i - 1
 			if chars[index] == d.Content {
 				stopCut = index
-- 
2.43.0


From 4261b1de2cbd5392da384440ddd935f43c00c714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:18 +0000
Subject: [PATCH 37/46] fix: normalizing text whose alignments were extended no
 longer panics

---
 normalizer/normalized.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/normalizer/normalized.go b/normalizer/normalized.go
index 1c234c5..26a1943 100644
--- a/normalizer/normalized.go
+++ b/normalizer/normalized.go
@@ -857,9 +857,7 @@ func (n *NormalizedString) TransformRange(inputRange *Range, changeMap []ChangeM
 // {5, 6},
 // {6, 7},
 func (n *NormalizedString) Transform(m []ChangeMap, initialOffset int) (retVal *NormalizedString) {
-	start := 0
-	end := len(n.original)
-	wholeRange := NewRange(start, end, OriginalTarget)
+	wholeRange := NewRange(0, len(n.normalized), NormalizedTarget)
 	return n.TransformRange(wholeRange, m, initialOffset)
 }
 
-- 
2.43.0


From 48469b26a9bbf5783edc93105a927bf1f085e9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:10 +0000
Subject: [PATCH 38/46] fix: the Prepend normalizer leaves empty text as it is
 instead of dropping it

---
 normalizer/prepend.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/normalizer/prepend.go b/normalizer/prepend.go
index 9fef305..88dc61a 100644
--- a/normalizer/prepend.go
+++ b/normalizer/prepend.go
@@ -12,7 +12,7 @@ func NewPrepend(prepend string) *Prepend {
 // Implement Normalizer for Prepend
 func (p *Prepend) Normalize(normalized *NormalizedString) (*NormalizedString, error) {
 	if normalized.IsEmpty() {
-		return nil, nil
+		return normalized, nil
 	}
 
 	return normalized.Prepend(p.Prepend), nil
-- 
2.43.0


From 75ffb883651b8067ac0671d048fd08b519d5a2fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:24 +0000
Subject: [PATCH 39/46] fix: removing text at the end of a normalized string
 that was extended no longer panics

---
 normalizer/normalized.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/normalizer/normalized.go b/normalizer/normalized.go
index 26a1943..e543435 100644
--- a/normalizer/normalized.go
+++ b/normalizer/normalized.go
@@ -769,6 +769,10 @@ func (n *NormalizedString) TransformRange(inputRange *Range, changeMap []ChangeM
 		// log.Printf("Shifting the end  from %v using shift: %v\n", endShiftStart, oShift)
 
 		var endShift [][]int
+		if endShiftStart > len(n.alignments) {
+			// the replaced chars reach to the end
+			endShiftStart = len(n.alignments)
+		}
 		for _, item := range n.alignments[endShiftStart:] {
 			endShift = append(endShift, item)
 		}
-- 
2.43.0


From baeec8d1848bf44f4374b5a0d367a5f314f02f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:16 +0000
Subject: [PATCH 40/46] fix: stripping both ends of a text looks at the right
 characters

---
 normalizer/normalized.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/normalizer/normalized.go b/normalizer/normalized.go
index e543435..f75ad6c 100644
--- a/normalizer/normalized.go
+++ b/normalizer/normalized.go
@@ -558,7 +558,6 @@ func (n *NormalizedString) TransformRange(inputRange *Range, changeMap []ChangeM
 		normalizedRunes []rune
 	)
 
-	replacedNormalized.Reset() // make sure iterating from begining
 	for _, item := range changeMap {
 		/*
 		 *     var changeType string
-- 
2.43.0


From 12131184d35b79408bff485bd53c1524d6be9efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:03 +0000
Subject: [PATCH 41/46] fix: the default BPE, WordPiece and CTC decoders no
 longer panic

---
 decoder/bpe.go       | 2 +-
 decoder/ctc.go       | 8 +-------
 decoder/wordpiece.go | 5 +----
 3 files changed, 3 insertions(+), 12 deletions(-)

diff --git a/decoder/bpe.go b/decoder/bpe.go
index 44bfec7..12989b9 100644
--- a/decoder/bpe.go
+++ b/decoder/bpe.go
@@ -29,7 +29,7 @@ func NewBpeDecoder(suffix string) *BpeDecoder {
 
 // DefaultBpeDecoder create a new BpeDecoder with default suffix (`</w>`)
 func DefaultBpeDecoder() *BpeDecoder {
-	return &BpeDecoder{suffix: "</w>"}
+	return NewBpeDecoder("</w>")
 }
 
 /*
diff --git a/decoder/ctc.go b/decoder/ctc.go
index f1f0655..3236e35 100644
--- a/decoder/ctc.go
+++ b/decoder/ctc.go
@@ -30,13 +30,7 @@ func NewCTC(padToken string, wordDelimiterToken string, cleanup bool) *CTC {
 }
 
 func DefaultCTC() *CTC {
-	base := new(DecoderBase)
-	return &CTC{
-		DecoderBase:        base,
-		PadToken:           "<pad>",
-		WordDelimiterToken: "|",
-		Cleanup:            true,
-	}
+	return NewCTC("<pad>", "|", true)
 }
 
 // dedup deduplicates consecutive elements.
diff --git a/decoder/wordpiece.go b/decoder/wordpiece.go
index 8c66b62..37acdc0 100644
--- a/decoder/wordpiece.go
+++ b/decoder/wordpiece.go
@@ -33,10 +33,7 @@ func NewWordPieceDecoder(prefix string, cleanup bool) *WordPieceDecoder {
 
 // DefaultBpeDecoder create a new BpeDecoder with default suffix (`</w>`)
 func DefaultWordpieceDecoder() *WordPieceDecoder {
-	return &WordPieceDecoder{
-		prefix:  "##",
-		cleanup: true,
-	}
+	return NewWordPieceDecoder("##", true)
 }
 
 /*
-- 
2.43.0


From 7311f26be2f263061c42a8ff556e33fffc9612aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:42 +0000
Subject: [PATCH 42/46] fix: BPE returns an error for a character that is not
 in the vocabulary when there is no unknown token

It panicked, so encoding such a text with a model without unknown token
(any trained model, say) ended the process instead of failing the call.
---
 model/bpe/bpe.go | 49 +++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 40 insertions(+), 9 deletions(-)

diff --git a/model/bpe/bpe.go b/model/bpe/bpe.go
index f55ea91..a465300 100644
--- a/model/bpe/bpe.go
+++ b/model/bpe/bpe.go
@@ -359,6 +359,17 @@ func (b *BPE) GetContinuingSubwordPrfix() *string {
 
 // MergeWord merges given word
 func (b *BPE) MergeWord(w string) *Word {
+	word, err := b.mergeWord(w)
+	if err != nil {
+		panic(err)
+	}
+
+	return word
+}
+
+// mergeWord is MergeWord, returning an error when the vocabulary has neither a
+// character of the word nor an `unk` token to stand for it.
+func (b *BPE) mergeWord(w string) (*Word, error) {
 
 	word := NewWord()
 	var (
@@ -407,8 +418,8 @@ func (b *BPE) MergeWord(w string) *Word {
 				// add `unk`
 				word.Add(unkId, byteLen)
 			} else {
-				fmt.Printf("cannot find '%s' in the vocab. \n", s)
-				panic("Can't find `unk` token in the vocab. Have you added one when initiating the model?")
+				err := fmt.Errorf("Can't find %q nor an `unk` token in the vocab. Have you added one when initiating the model?", s)
+				return nil, err
 			}
 		}
 	}
@@ -419,7 +430,7 @@ func (b *BPE) MergeWord(w string) *Word {
 		word.MergeAll(*b.Merges)
 	}
 
-	return word
+	return word, nil
 }
 
 // WordToTokens slices word to tokens
@@ -470,29 +481,49 @@ func (b BPE) Tokenize(sequence string) (retVal []tokenizer.Token, err error) {
 	}
 
 	if b.Dropout == nil {
-		return b.TokenizeWithCache(sequence), nil
+		return b.tokenizeWithCache(sequence)
 	}
 
-	word := b.MergeWord(sequence)
+	word, err := b.mergeWord(sequence)
+	if err != nil {
+		return nil, err
+	}
 
 	return b.WordToTokens(*word), nil
 }
 
 func (b BPE) TokenizeWithCache(sequence string) (retVal []tokenizer.Token) {
+	retVal, err := b.tokenizeWithCache(sequence)
+	if err != nil {
+		panic(err)
+	}
+
+	return retVal
+}
+
+// tokenizeWithCache is TokenizeWithCache, returning the error of mergeWord.
+func (b BPE) tokenizeWithCache(sequence string) (retVal []tokenizer.Token, err error) {
 
 	if b.Cache == nil { // caching is disabled
-		return b.WordToTokens(*b.MergeWord(sequence))
+		word, err := b.mergeWord(sequence)
+		if err != nil {
+			return nil, err
+		}
+		return b.WordToTokens(*word), nil
 	}
 
 	if hit, ok := b.Cache.Get(sequence); ok {
-		return b.WordToTokens(hit)
+		return b.WordToTokens(hit), nil
 	} else {
-		word := b.MergeWord(sequence)
+		word, err := b.mergeWord(sequence)
+		if err != nil {
+			return nil, err
+		}
 		retVal = b.WordToTokens(*word)
 		b.Cache.SetValues([]CacheItem{
 			{sequence, *word},
 		})
-		return retVal
+		return retVal, nil
 	}
 }
 
-- 
2.43.0


From b20c4b8b3f49623d7357b1481634048c761e82f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:42 +0000
Subject: [PATCH 43/46] fix: ByteFallback decoder takes a token that only looks
 like a byte for an ordinary token

It panicked on tokens like <0xZZ>.
---
 decoder/byte-fallback.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/decoder/byte-fallback.go b/decoder/byte-fallback.go
index 763f85a..89ba727 100644
--- a/decoder/byte-fallback.go
+++ b/decoder/byte-fallback.go
@@ -37,13 +37,11 @@ func (d *ByteFallback) DecodeChain(tokens []string) []string {
 
 	for _, token := range tokens {
 		var bytes []byte
-		var err error
 
 		if len(token) == 6 && strings.HasPrefix(token, "<0x") && strings.HasSuffix(token, ">") {
-			// convert hex string to bytes
-			bytes, err = hex.DecodeString(token[3:5])
-			if err != nil {
-				panic(err)
+			// convert hex string to bytes; a token that only looks like one is an ordinary token
+			if decoded, err := hex.DecodeString(token[3:5]); err == nil {
+				bytes = decoded
 			}
 		}
 
-- 
2.43.0


From b749a3a5d1f310d5d5e5c187297e6c983c8b715d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:42 +0000
Subject: [PATCH 44/46] fix: adding a token that is not valid UTF-8 ended the
 process

No pattern can be built for such a token and no text contains it, so it
adds nothing, like an empty one.
---
 added-vocabulary.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/added-vocabulary.go b/added-vocabulary.go
index d07c50f..7457e3e 100644
--- a/added-vocabulary.go
+++ b/added-vocabulary.go
@@ -6,6 +6,7 @@ import (
 	"regexp"
 	"sort"
 	"unicode"
+	"unicode/utf8"
 
 	"github.com/sugarme/regexpset"
 	"github.com/sugarme/tokenizer/normalizer"
@@ -272,13 +273,19 @@ func (av *AddedVocabulary) IsSpecialToken(token string) bool {
 	return ok
 }
 
+// isMatchable returns whether a text can contain the given token at all: there is
+// no pattern for empty tokens and for tokens that are not valid UTF-8.
+func isMatchable(content string) bool {
+	return content != "" && utf8.ValidString(content)
+}
+
 // Add some special tokens to the vocabulary
 // It returns number of added tokens
 func (av *AddedVocabulary) AddSpecialTokens(tokens []AddedToken, model Model, normalizer normalizer.Normalizer) (retVal int) {
 
 	for _, tok := range tokens {
 		_, isExist := av.specialTokensSet[tok.Content]
-		if tok.Content != "" && !isExist {
+		if isMatchable(tok.Content) && !isExist {
 			av.specialTokens = append(av.specialTokens, tok)
 			av.specialTokensSet[tok.Content] = true
 		}
@@ -294,7 +301,7 @@ func (av *AddedVocabulary) AddTokens(tokens []AddedToken, model Model, normalize
 
 	ignored := 0
 	for _, token := range tokens {
-		if token.Content == "" {
+		if !isMatchable(token.Content) {
 			ignored++
 			continue
 		}
-- 
2.43.0


From 5c8c874f4664d1a9aba67b4dcd25b99cee230f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:03 +0000
Subject: [PATCH 45/46] fix: adding a single-word token ended the process when
 the normalizer fails on it

The token is matched as it is then.
---
 added-vocabulary.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/added-vocabulary.go b/added-vocabulary.go
index 7457e3e..ce71977 100644
--- a/added-vocabulary.go
+++ b/added-vocabulary.go
@@ -145,14 +145,12 @@ func (at AddedToken) GetPattern(n normalizer.Normalizer) (retVal string) {
 		// normalize the content
 		content := normalizer.NewNormalizedFrom(at.Content)
 		var normalized string
+		normalized = at.Content // without a normalizer, or if it fails, just use content as is
 		if n != nil {
 			normalizedString, err := n.Normalize(content)
-			if err != nil {
-				log.Fatal(err)
+			if err == nil {
+				normalized = normalizedString.GetNormalized()
 			}
-			normalized = normalizedString.GetNormalized()
-		} else { // don't have a normalizer, just use content as is
-			normalized = at.Content
 		}
 
 		reStr = fmt.Sprintf("%v%v%v", firstB, regexp.QuoteMeta(normalized), lastB)
-- 
2.43.0


From ff8d2d80ebbedb08bf6eaaaef2f3c42cdf7934a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:03 +0000
Subject: [PATCH 46/46] fix: replacing the normalizer left the patterns of
 single-word added tokens as they were

The pattern of such a token is its normalized content. After WithNormalizer
it was still matched as the normalizer before had made it.
---
 tokenizer.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tokenizer.go b/tokenizer.go
index e7ee762..b6f4143 100644
--- a/tokenizer.go
+++ b/tokenizer.go
@@ -286,6 +286,8 @@ func NewTokenizer(model Model) *Tokenizer {
 
 func (t *Tokenizer) WithNormalizer(n normalizer.Normalizer) {
 	t.normalizer = n
+	// the patterns of single-word tokens depend on the normalizer
+	t.addedVocabulary.refreshAddedTokens(t.model, n)
 }
 
 func (t *Tokenizer) GetNormalizer() normalizer.Normalizer {
-- 
2.43.0

