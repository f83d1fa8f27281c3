From 142217c1a293dfcfa244608fec9f6ca85b19be82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:15 +0000
Subject: [PATCH 01/11] fix: look for the word of a character at the
 character's word node

---
 internal/concrete/character/entity.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/concrete/character/entity.go b/internal/concrete/character/entity.go
index 3f415c8..5c08317 100644
--- a/internal/concrete/character/entity.go
+++ b/internal/concrete/character/entity.go
@@ -102,7 +102,7 @@ func (e Entity) MarkWord(sourceIdentifier uint) error {
 
 func (e Entity) HasTargetWord() (bool, error) {
 
-	targets, err := e.storage.ReadTargets(e.character)
+	targets, err := e.storage.ReadTargets(e.word)
 	if err != nil {
 		return false, err
 	}
@@ -113,7 +113,7 @@ func (e Entity) HasTargetWord() (bool, error) {
 	case 1:
 		return true, nil
 	default:
-		return false, fmt.Errorf("character has wrong number of target words: %d at %d", len(targets), e.character)
+		return false, fmt.Errorf("character has wrong number of target words: %d at %d", len(targets), e.word)
 	}
 }
 
-- 
2.43.0


From b13c5a0a42921c9850fe4f40c2e500500d97b676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:15 +0000
Subject: [PATCH 02/11] fix: stop at the first element of a path that cannot be
 provided

---
 internal/concrete/character/repository.go | 3 +++
 internal/concrete/phrase/repository.go    | 3 +++
 internal/concrete/word/repository.go      | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/internal/concrete/character/repository.go b/internal/concrete/character/repository.go
index ec0a55a..6b9ec43 100644
--- a/internal/concrete/character/repository.go
+++ b/internal/concrete/character/repository.go
@@ -42,6 +42,9 @@ func (r *Repository) Provide(integer rune) (abstractCharacter.Aggregate, error)
 	for _, bitValue := range path[1:] {
 
 		characterElement, err = characterElement.ProvideNextElement(bitValue)
+		if err != nil {
+			return nil, err
+		}
 	}
 
 	return Aggregate{
diff --git a/internal/concrete/phrase/repository.go b/internal/concrete/phrase/repository.go
index 51584c9..33a9a2a 100644
--- a/internal/concrete/phrase/repository.go
+++ b/internal/concrete/phrase/repository.go
@@ -42,6 +42,9 @@ func (r *Repository) Provide(words string) (abstractPhrase.Aggregate, error) {
 	for _, wordValue := range path[1:] {
 
 		phraseElement, err = phraseElement.ProvideNextElement(wordValue)
+		if err != nil {
+			return nil, err
+		}
 	}
 
 	return Aggregate{
diff --git a/internal/concrete/word/repository.go b/internal/concrete/word/repository.go
index eb21950..316602f 100644
--- a/internal/concrete/word/repository.go
+++ b/internal/concrete/word/repository.go
@@ -46,6 +46,9 @@ func (r *Repository) Provide(word string) (abstractWord.Aggregate, error) {
 	for _, characterValue := range path[1:] {
 
 		wordElement, err = wordElement.ProvideNextElement(characterValue)
+		if err != nil {
+			return nil, err
+		}
 	}
 
 	return Aggregate{
-- 
2.43.0


From e608961cca5a3ca3851abedcee5ae175a6a74bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:15 +0000
Subject: [PATCH 03/11] fix: report storage failures that were ignored

---
 internal/concrete/character/aggragate.go |  3 +++
 internal/concrete/character/elements.go  |  3 +++
 internal/concrete/detail/factory.go      |  3 +++
 internal/concrete/fact/aggregate.go      | 15 +++++++++++++++
 internal/concrete/phrase/aggregate.go    |  3 +++
 internal/concrete/remark/aggregate.go    |  3 +++
 internal/concrete/word/aggregate.go      |  3 +++
 7 files changed, 33 insertions(+)

diff --git a/internal/concrete/character/aggragate.go b/internal/concrete/character/aggragate.go
index 0a3910e..c9f24ad 100644
--- a/internal/concrete/character/aggragate.go
+++ b/internal/concrete/character/aggragate.go
@@ -54,6 +54,9 @@ func (a Aggregate) Extract() (rune, error) {
 		}
 
 		characterElement, err = characterElement.GetPreviousElement()
+		if err != nil {
+			return 0, err
+		}
 
 		bitValue, err := characterElement.ExtractBitValue()
 		if err != nil {
diff --git a/internal/concrete/character/elements.go b/internal/concrete/character/elements.go
index d88350a..c346197 100644
--- a/internal/concrete/character/elements.go
+++ b/internal/concrete/character/elements.go
@@ -43,6 +43,9 @@ func (e *Elements) ProvideFirstElement(bitValue bool) (abstractCharacter.Element
 	}
 
 	character, err := e.characterFactory.ProvideHeadEntity(class, firstBit)
+	if err != nil {
+		return nil, err
+	}
 
 	return Element{
 		character:        character,
diff --git a/internal/concrete/detail/factory.go b/internal/concrete/detail/factory.go
index 7412678..d817690 100644
--- a/internal/concrete/detail/factory.go
+++ b/internal/concrete/detail/factory.go
@@ -31,6 +31,9 @@ func (f *Factory) ProvideEntity(
 	}
 
 	propertySourceDetails, err := propertyPhrase.GetSourceDetails()
+	if err != nil {
+		return nil, err
+	}
 
 	commonDetailIdentifiers := make([]uint, 0, 1)
 
diff --git a/internal/concrete/fact/aggregate.go b/internal/concrete/fact/aggregate.go
index 798781f..b951c43 100644
--- a/internal/concrete/fact/aggregate.go
+++ b/internal/concrete/fact/aggregate.go
@@ -59,6 +59,9 @@ func (a Aggregate) GetFirstRemark() (uint, error) {
 func (a Aggregate) HasNextStory() (bool, error) {
 
 	storyIdentifier, err := a.fact.GetTargetStory()
+	if err != nil {
+		return false, err
+	}
 
 	story, err := a.storyRepository.FetchByFact(storyIdentifier)
 	if err != nil {
@@ -71,6 +74,9 @@ func (a Aggregate) HasNextStory() (bool, error) {
 func (a Aggregate) ToNextStory() (abstractFact.Aggregate, error) {
 
 	storyIdentifier, err := a.fact.GetTargetStory()
+	if err != nil {
+		return nil, err
+	}
 
 	story, err := a.storyRepository.FetchByFact(storyIdentifier)
 	if err != nil {
@@ -106,6 +112,9 @@ func (a Aggregate) ToNextStory() (abstractFact.Aggregate, error) {
 func (a Aggregate) HasParentStory() (bool, error) {
 
 	storyIdentifier, err := a.fact.GetTargetStory()
+	if err != nil {
+		return false, err
+	}
 
 	story, err := a.storyRepository.FetchByFact(storyIdentifier)
 	if err != nil {
@@ -118,6 +127,9 @@ func (a Aggregate) HasParentStory() (bool, error) {
 func (a Aggregate) ToParentStory() (abstractFact.Aggregate, error) {
 
 	storyIdentifier, err := a.fact.GetTargetStory()
+	if err != nil {
+		return nil, err
+	}
 
 	story, err := a.storyRepository.FetchByFact(storyIdentifier)
 	if err != nil {
@@ -153,6 +165,9 @@ func (a Aggregate) ToParentStory() (abstractFact.Aggregate, error) {
 func (a Aggregate) ToFirstFact() (abstractFact.Aggregate, error) {
 
 	storyIdentifier, err := a.fact.GetTargetStory()
+	if err != nil {
+		return nil, err
+	}
 
 	story, err := a.storyRepository.FetchByFact(storyIdentifier)
 	if err != nil {
diff --git a/internal/concrete/phrase/aggregate.go b/internal/concrete/phrase/aggregate.go
index 2c6519e..502e979 100644
--- a/internal/concrete/phrase/aggregate.go
+++ b/internal/concrete/phrase/aggregate.go
@@ -52,6 +52,9 @@ func (a Aggregate) Extract() (string, error) {
 		}
 
 		phraseElement, err = phraseElement.GetPreviousElement()
+		if err != nil {
+			return "", err
+		}
 
 		wordValue, err := phraseElement.ExtractWordValue()
 		if err != nil {
diff --git a/internal/concrete/remark/aggregate.go b/internal/concrete/remark/aggregate.go
index 02cc0cc..a60b2cd 100644
--- a/internal/concrete/remark/aggregate.go
+++ b/internal/concrete/remark/aggregate.go
@@ -35,6 +35,9 @@ func (a Aggregate) GetNextRemark() (abstractRemark.Aggregate, error) {
 	}
 
 	nextRemark, err := a.remarkStorage.ReadEntityByPosition(nextRemarkIdentifier)
+	if err != nil {
+		return nil, err
+	}
 
 	class, err := a.classRepository.ProvideEntity()
 	if err != nil {
diff --git a/internal/concrete/word/aggregate.go b/internal/concrete/word/aggregate.go
index a10c393..c46929d 100644
--- a/internal/concrete/word/aggregate.go
+++ b/internal/concrete/word/aggregate.go
@@ -34,6 +34,9 @@ func (a Aggregate) Extract() (string, error) {
 		}
 
 		wordElement, err = wordElement.GetPreviousElement()
+		if err != nil {
+			return "", err
+		}
 
 		characterValue, err := wordElement.ExtractCharacterValue()
 		if err != nil {
-- 
2.43.0


From 0d23d521d4410d4f0eed353b43d3a08e8b51661b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:34 +0000
Subject: [PATCH 04/11] fix: refuse words that are not valid UTF-8 instead of
 altering them

---
 internal/concrete/word/paths.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/concrete/word/paths.go b/internal/concrete/word/paths.go
index df7c41e..0191d6c 100644
--- a/internal/concrete/word/paths.go
+++ b/internal/concrete/word/paths.go
@@ -2,6 +2,7 @@ package word
 
 import (
 	"fmt"
+	"unicode/utf8"
 )
 
 type paths struct{}
@@ -20,6 +21,10 @@ func (p *paths) create(start rune) path {
 
 func (p *paths) collect(word string) (path, error) {
 
+	if !utf8.ValidString(word) {
+		return path{}, fmt.Errorf("invalid encoding of word: %q", word)
+	}
+
 	path := []rune(word)
 
 	if len(path) < 1 {
-- 
2.43.0


From fc12fbb8f427ab871b0ab7a4fe984fbbadc02e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:34 +0000
Subject: [PATCH 05/11] fix: accept only identifiers of remarks in GetRemark

---
 internal/concrete/remark/repository.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/internal/concrete/remark/repository.go b/internal/concrete/remark/repository.go
index 60cc3d3..3d1e352 100644
--- a/internal/concrete/remark/repository.go
+++ b/internal/concrete/remark/repository.go
@@ -1,6 +1,7 @@
 package remark
 
 import (
+	"fmt"
 	"github.com/mem-memov/semnet/internal/abstract"
 	abstractClass "github.com/mem-memov/semnet/internal/abstract/class"
 	abstractDetail "github.com/mem-memov/semnet/internal/abstract/detail"
@@ -94,6 +95,20 @@ func (r *Repository) GetRemark(remarkIdentifier uint) (abstractRemark.Aggregate,
 		return nil, err
 	}
 
+	class, err := r.classRepository.ProvideEntity()
+	if err != nil {
+		return nil, err
+	}
+
+	isRemark, err := class.IsRemark(remark.GetClass())
+	if err != nil {
+		return nil, err
+	}
+
+	if !isRemark {
+		return nil, fmt.Errorf("identifier does not belong to a remark: %d", remarkIdentifier)
+	}
+
 	return Aggregate{
 		remark:           remark,
 		remarkStorage:    r.remarkStorage,
-- 
2.43.0


From 9bcba78b2cac1bf35cd1bb4139dd10c6ac9e89b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:34 +0000
Subject: [PATCH 06/11] fix: link phrases to a detail only after the detail is
 complete

---
 internal/concrete/detail/storage.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/internal/concrete/detail/storage.go b/internal/concrete/detail/storage.go
index 9928fa8..4153363 100644
--- a/internal/concrete/detail/storage.go
+++ b/internal/concrete/detail/storage.go
@@ -35,27 +35,27 @@ func (s *Storage) CreateEntity(
 		return nil, err
 	}
 
-	err = objectPhrase.AddTargetDetail(phrase)
+	remark, err := s.storage.Create()
 	if err != nil {
 		return nil, err
 	}
 
-	err = propertyPhrase.AddSourceDetail(phrase)
+	err = s.storage.SetReference(class, phrase)
 	if err != nil {
 		return nil, err
 	}
 
-	remark, err := s.storage.Create()
+	err = s.storage.SetReference(phrase, remark)
 	if err != nil {
 		return nil, err
 	}
 
-	err = s.storage.SetReference(class, phrase)
+	err = objectPhrase.AddTargetDetail(phrase)
 	if err != nil {
 		return nil, err
 	}
 
-	err = s.storage.SetReference(phrase, remark)
+	err = propertyPhrase.AddSourceDetail(phrase)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From a47cec0657ae06b0434f7beb5e7deb56b47f1a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:34 +0000
Subject: [PATCH 07/11] fix: give a character read by its class a storage

---
 internal/concrete/character/storage.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/concrete/character/storage.go b/internal/concrete/character/storage.go
index 251f279..e64f582 100644
--- a/internal/concrete/character/storage.go
+++ b/internal/concrete/character/storage.go
@@ -80,6 +80,7 @@ func (s *Storage) ReadEntityByClass(class uint) (abstractCharacter.Entity, error
 		bit:       bit,
 		character: character,
 		word:      word,
+		storage:   s.storage,
 	}, nil
 }
 
-- 
2.43.0


From 5009ac96390b138611f3c2a8c80978046fe707ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:34 +0000
Subject: [PATCH 08/11] fix: keep the fact storage when moving to another fact

---
 internal/concrete/fact/aggregate.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/concrete/fact/aggregate.go b/internal/concrete/fact/aggregate.go
index b951c43..bae9977 100644
--- a/internal/concrete/fact/aggregate.go
+++ b/internal/concrete/fact/aggregate.go
@@ -47,6 +47,7 @@ func (a Aggregate) ToNextFact() (abstractFact.Aggregate, error) {
 
 	return Aggregate{
 		fact:            nextFact,
+		factStorage:     a.factStorage,
 		storyRepository: a.storyRepository,
 	}, nil
 }
@@ -105,6 +106,7 @@ func (a Aggregate) ToNextStory() (abstractFact.Aggregate, error) {
 
 	return Aggregate{
 		fact:            nextFact,
+		factStorage:     a.factStorage,
 		storyRepository: a.storyRepository,
 	}, nil
 }
@@ -158,6 +160,7 @@ func (a Aggregate) ToParentStory() (abstractFact.Aggregate, error) {
 
 	return Aggregate{
 		fact:            parentFact,
+		factStorage:     a.factStorage,
 		storyRepository: a.storyRepository,
 	}, nil
 }
@@ -186,6 +189,7 @@ func (a Aggregate) ToFirstFact() (abstractFact.Aggregate, error) {
 
 	return Aggregate{
 		fact:            firstFact,
+		factStorage:     a.factStorage,
 		storyRepository: a.storyRepository,
 	}, nil
 }
-- 
2.43.0


From 241d24e5c645fa0c9a2250c7f4c3ce703bd44744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:02 +0000
Subject: [PATCH 09/11] fix: navigate from the fact a remark belongs to

---
 internal/concrete/remark/aggregate.go | 28 +++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/internal/concrete/remark/aggregate.go b/internal/concrete/remark/aggregate.go
index a60b2cd..371d56f 100644
--- a/internal/concrete/remark/aggregate.go
+++ b/internal/concrete/remark/aggregate.go
@@ -64,7 +64,12 @@ func (a Aggregate) GetNextRemark() (abstractRemark.Aggregate, error) {
 
 func (a Aggregate) HasNextFact() (bool, error) {
 
-	fact, err := a.factRepository.FetchByRemark(a.remark.GetFact())
+	factIdentifier, err := a.remark.GetTargetFact()
+	if err != nil {
+		return false, err
+	}
+
+	fact, err := a.factRepository.FetchByRemark(factIdentifier)
 	if err != nil {
 		return false, err
 	}
@@ -74,7 +79,12 @@ func (a Aggregate) HasNextFact() (bool, error) {
 
 func (a Aggregate) GetNextFact() (abstractRemark.Aggregate, error) {
 
-	fact, err := a.factRepository.FetchByRemark(a.remark.GetFact())
+	factIdentifier, err := a.remark.GetTargetFact()
+	if err != nil {
+		return nil, err
+	}
+
+	fact, err := a.factRepository.FetchByRemark(factIdentifier)
 	if err != nil {
 		return nil, err
 	}
@@ -142,7 +152,12 @@ func (a Aggregate) GetFirstFact() (abstractRemark.Aggregate, error) {
 
 func (a Aggregate) HasNextStory() (bool, error) {
 
-	fact, err := a.factRepository.FetchByRemark(a.remark.GetFact())
+	factIdentifier, err := a.remark.GetTargetFact()
+	if err != nil {
+		return false, err
+	}
+
+	fact, err := a.factRepository.FetchByRemark(factIdentifier)
 	if err != nil {
 		return false, err
 	}
@@ -152,7 +167,12 @@ func (a Aggregate) HasNextStory() (bool, error) {
 
 func (a Aggregate) GetNextStory() (abstractRemark.Aggregate, error) {
 
-	fact, err := a.factRepository.FetchByRemark(a.remark.GetFact())
+	factIdentifier, err := a.remark.GetTargetFact()
+	if err != nil {
+		return nil, err
+	}
+
+	fact, err := a.factRepository.FetchByRemark(factIdentifier)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From e5fe18e7a204be2c4883eaa9f34c3265b3d568b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:02 +0000
Subject: [PATCH 10/11] fix: add a fact to the end of the story of its remark

---
 internal/abstract/fact/repository.go  |  1 +
 internal/concrete/fact/repository.go  | 49 +++++++++++++++++++++++----
 internal/concrete/remark/aggregate.go | 17 +++++++++-
 3 files changed, 60 insertions(+), 7 deletions(-)

diff --git a/internal/abstract/fact/repository.go b/internal/abstract/fact/repository.go
index cf82db6..3961b45 100644
--- a/internal/abstract/fact/repository.go
+++ b/internal/abstract/fact/repository.go
@@ -4,5 +4,6 @@ type Repository interface {
 	CreateFirstStoryFact() (Aggregate, error)
 	FetchByRemark(remarkIdentifier uint) (Aggregate, error)
 	CreateNextFact(remarkIdentifier uint) (Aggregate, error)
+	AppendFact(remarkIdentifier uint, nextRemarkIdentifier uint) error
 	CreateChildStoryFact(remarkIdentifier uint) (Aggregate, error)
 }
diff --git a/internal/concrete/fact/repository.go b/internal/concrete/fact/repository.go
index 5304dc9..1182606 100644
--- a/internal/concrete/fact/repository.go
+++ b/internal/concrete/fact/repository.go
@@ -87,32 +87,32 @@ func (r *Repository) CreateNextFact(remarkIdentifier uint) (abstractFact.Aggrega
 		return nil, err
 	}
 
-	story, err := r.storyRepository.FetchByFact(fact.GetStory())
+	storyIdentifier, err := fact.GetTargetStory()
 	if err != nil {
 		return nil, err
 	}
 
-	class, err := r.classRepository.ProvideEntity()
+	story, err := r.storyRepository.FetchByFact(storyIdentifier)
 	if err != nil {
 		return nil, err
 	}
 
-	classIdentifier, err := class.CreateFact()
+	class, err := r.classRepository.ProvideEntity()
 	if err != nil {
 		return nil, err
 	}
 
-	nextFact, err := r.factStorage.CreateEntity(classIdentifier)
+	classIdentifier, err := class.CreateFact()
 	if err != nil {
 		return nil, err
 	}
 
-	err = nextFact.PointToStory(story.GetFact())
+	nextFact, err := r.factStorage.CreateEntity(classIdentifier)
 	if err != nil {
 		return nil, err
 	}
 
-	err = fact.PointToPosition(nextFact.GetPosition())
+	err = nextFact.PointToStory(story.GetFact())
 	if err != nil {
 		return nil, err
 	}
@@ -124,6 +124,43 @@ func (r *Repository) CreateNextFact(remarkIdentifier uint) (abstractFact.Aggrega
 	}, nil
 }
 
+// AppendFact makes a complete fact the last one of the story another fact belongs to.
+func (r *Repository) AppendFact(remarkIdentifier uint, nextRemarkIdentifier uint) error {
+
+	fact, err := r.factStorage.ReadEntityByRemark(remarkIdentifier)
+	if err != nil {
+		return err
+	}
+
+	nextFact, err := r.factStorage.ReadEntityByRemark(nextRemarkIdentifier)
+	if err != nil {
+		return err
+	}
+
+	for {
+		hasTargetFact, err := fact.HasTargetFact()
+		if err != nil {
+			return err
+		}
+
+		if !hasTargetFact {
+			break
+		}
+
+		targetFact, err := fact.GetTargetFact()
+		if err != nil {
+			return err
+		}
+
+		fact, err = r.factStorage.ReadEntityByPosition(targetFact)
+		if err != nil {
+			return err
+		}
+	}
+
+	return fact.PointToPosition(nextFact.GetPosition())
+}
+
 func (r *Repository) CreateChildStoryFact(remarkIdentifier uint) (abstractFact.Aggregate, error) {
 
 	fact, err := r.factStorage.ReadEntityByRemark(remarkIdentifier)
diff --git a/internal/concrete/remark/aggregate.go b/internal/concrete/remark/aggregate.go
index 371d56f..2afc92d 100644
--- a/internal/concrete/remark/aggregate.go
+++ b/internal/concrete/remark/aggregate.go
@@ -317,7 +317,12 @@ func (a Aggregate) AddFactToStory(object string, property string) (abstractRemar
 
 	// fact
 
-	nextFact, err := a.factRepository.CreateNextFact(a.remark.GetFact())
+	factIdentifier, err := a.remark.GetTargetFact()
+	if err != nil {
+		return nil, err
+	}
+
+	nextFact, err := a.factRepository.CreateNextFact(factIdentifier)
 	if err != nil {
 		return nil, err
 	}
@@ -327,6 +332,16 @@ func (a Aggregate) AddFactToStory(object string, property string) (abstractRemar
 		return nil, err
 	}
 
+	err = nextFact.PointToRemark(remark.GetFact())
+	if err != nil {
+		return nil, err
+	}
+
+	err = a.factRepository.AppendFact(factIdentifier, nextFact.GetRemark())
+	if err != nil {
+		return nil, err
+	}
+
 	return Aggregate{
 		remark:           remark,
 		remarkStorage:    a.remarkStorage,
-- 
2.43.0


From 61cda19bcaa46d8d620a0f94b715de7352ede791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:50 +0000
Subject: [PATCH 11/11] fix: keep child stories of one story in one chain of
 siblings

---
 internal/abstract/fact/repository.go  |  2 +-
 internal/concrete/fact/aggregate.go   |  2 +-
 internal/concrete/fact/repository.go  | 94 +++++++++++----------------
 internal/concrete/remark/aggregate.go | 12 +++-
 internal/concrete/story/entity.go     |  4 +-
 5 files changed, 53 insertions(+), 61 deletions(-)

diff --git a/internal/abstract/fact/repository.go b/internal/abstract/fact/repository.go
index 3961b45..27d22a8 100644
--- a/internal/abstract/fact/repository.go
+++ b/internal/abstract/fact/repository.go
@@ -5,5 +5,5 @@ type Repository interface {
 	FetchByRemark(remarkIdentifier uint) (Aggregate, error)
 	CreateNextFact(remarkIdentifier uint) (Aggregate, error)
 	AppendFact(remarkIdentifier uint, nextRemarkIdentifier uint) error
-	CreateChildStoryFact(remarkIdentifier uint) (Aggregate, error)
+	AppendChildStory(remarkIdentifier uint, childRemarkIdentifier uint) error
 }
diff --git a/internal/concrete/fact/aggregate.go b/internal/concrete/fact/aggregate.go
index bae9977..c4f2a7e 100644
--- a/internal/concrete/fact/aggregate.go
+++ b/internal/concrete/fact/aggregate.go
@@ -123,7 +123,7 @@ func (a Aggregate) HasParentStory() (bool, error) {
 		return false, err
 	}
 
-	return story.HasSourceTree()
+	return story.HasTargetTree()
 }
 
 func (a Aggregate) ToParentStory() (abstractFact.Aggregate, error) {
diff --git a/internal/concrete/fact/repository.go b/internal/concrete/fact/repository.go
index 1182606..61aabee 100644
--- a/internal/concrete/fact/repository.go
+++ b/internal/concrete/fact/repository.go
@@ -161,44 +161,65 @@ func (r *Repository) AppendFact(remarkIdentifier uint, nextRemarkIdentifier uint
 	return fact.PointToPosition(nextFact.GetPosition())
 }
 
-func (r *Repository) CreateChildStoryFact(remarkIdentifier uint) (abstractFact.Aggregate, error) {
+// AppendChildStory makes the story of a complete fact the last child of the story another fact belongs to.
+func (r *Repository) AppendChildStory(remarkIdentifier uint, childRemarkIdentifier uint) error {
 
 	fact, err := r.factStorage.ReadEntityByRemark(remarkIdentifier)
 	if err != nil {
-		return nil, err
+		return err
 	}
 
-	story, err := r.storyRepository.FetchByFact(fact.GetStory())
+	storyIdentifier, err := fact.GetTargetStory()
 	if err != nil {
-		return nil, err
+		return err
 	}
 
-	hasTargetTree, err := story.HasTargetTree()
+	story, err := r.storyRepository.FetchByFact(storyIdentifier)
 	if err != nil {
-		return nil, err
+		return err
 	}
 
-	childStory, err := r.storyRepository.CreateStory()
+	hasSourceTree, err := story.HasSourceTree()
 	if err != nil {
-		return nil, err
+		return err
+	}
+
+	childFact, err := r.factStorage.ReadEntityByRemark(childRemarkIdentifier)
+	if err != nil {
+		return err
+	}
+
+	childStoryIdentifier, err := childFact.GetTargetStory()
+	if err != nil {
+		return err
+	}
+
+	childStory, err := r.storyRepository.FetchByFact(childStoryIdentifier)
+	if err != nil {
+		return err
 	}
 
 	err = childStory.PointToTree(story.GetTree())
 	if err != nil {
-		return nil, err
+		return err
 	}
 
-	if hasTargetTree {
+	if hasSourceTree {
 
-		siblingStory, err := r.storyRepository.FetchByTree(story.GetTree())
+		sourceTree, err := story.GetSourceTree()
 		if err != nil {
-			return nil, err
+			return err
+		}
+
+		siblingStory, err := r.storyRepository.FetchByTree(sourceTree)
+		if err != nil {
+			return err
 		}
 
 		for {
 			hasTargetPosition, err := siblingStory.HasTargetPosition()
 			if err != nil {
-				return nil, err
+				return err
 			}
 
 			if !hasTargetPosition {
@@ -207,59 +228,20 @@ func (r *Repository) CreateChildStoryFact(remarkIdentifier uint) (abstractFact.A
 
 			targetPosition, err := siblingStory.GetTargetPosition()
 			if err != nil {
-				return nil, err
+				return err
 			}
 
 			siblingStory, err = r.storyRepository.FetchByPosition(targetPosition)
 			if err != nil {
-				return nil, err
+				return err
 			}
 		}
 
 		err = siblingStory.PointToPosition(childStory.GetPosition())
 		if err != nil {
-			return nil, err
-		}
-
-		err = story.PointToTree(childStory.GetTree())
-		if err != nil {
-			return nil, err
+			return err
 		}
-
-	}
-
-	//
-
-	class, err := r.classRepository.ProvideEntity()
-	if err != nil {
-		return nil, err
-	}
-
-	classIdentifier, err := class.CreateFact()
-	if err != nil {
-		return nil, err
 	}
 
-	firstFact, err := r.factStorage.CreateEntity(classIdentifier)
-	if err != nil {
-		return nil, err
-	}
-
-	err = firstFact.PointToStory(childStory.GetFact())
-	if err != nil {
-		return nil, err
-	}
-
-	err = childStory.PointToFact(firstFact.GetStory())
-	if err != nil {
-		return nil, err
-	}
-
-	//
-
-	return Aggregate{
-		fact:            firstFact,
-		factStorage:     r.factStorage,
-		storyRepository: r.storyRepository,
-	}, nil
+	return nil
 }
diff --git a/internal/concrete/remark/aggregate.go b/internal/concrete/remark/aggregate.go
index 2afc92d..26f5af8 100644
--- a/internal/concrete/remark/aggregate.go
+++ b/internal/concrete/remark/aggregate.go
@@ -382,7 +382,12 @@ func (a Aggregate) CreateChildStory(object string, property string) (abstractRem
 
 	// fact
 
-	firstFact, err := a.factRepository.CreateChildStoryFact(a.remark.GetFact())
+	factIdentifier, err := a.remark.GetTargetFact()
+	if err != nil {
+		return nil, err
+	}
+
+	firstFact, err := a.factRepository.CreateFirstStoryFact()
 	if err != nil {
 		return nil, err
 	}
@@ -397,6 +402,11 @@ func (a Aggregate) CreateChildStory(object string, property string) (abstractRem
 		return nil, err
 	}
 
+	err = a.factRepository.AppendChildStory(factIdentifier, firstFact.GetRemark())
+	if err != nil {
+		return nil, err
+	}
+
 	return Aggregate{
 		remark:           remark,
 		remarkStorage:    a.remarkStorage,
diff --git a/internal/concrete/story/entity.go b/internal/concrete/story/entity.go
index 0eb4685..d56f9e3 100644
--- a/internal/concrete/story/entity.go
+++ b/internal/concrete/story/entity.go
@@ -130,8 +130,8 @@ func (e Entity) GetSourceTree() (uint, error) {
 		return 0, err
 	}
 
-	if len(sources) != 1 {
-		return 0, fmt.Errorf("story has wrong number of source trees")
+	if len(sources) == 0 {
+		return 0, fmt.Errorf("story has no source trees")
 	}
 
 	return sources[0], nil
-- 
2.43.0

