From e94d4779da8d4b9ef8dfbd2088b0fbfd76db6bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:04 +0000
Subject: [PATCH 01/15] fix: look up the word of a character at its word node

The lookup read the links to longer characters instead, so a word was
stored again on every use and texts such as "1" after "b" were refused.
---
 internal/concrete/character/entity.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/concrete/character/entity.go b/internal/concrete/character/entity.go
index 3f415c8..5c08317 100644
--- a/internal/concrete/character/entity.go
+++ b/internal/concrete/character/entity.go
@@ -102,7 +102,7 @@ func (e Entity) MarkWord(sourceIdentifier uint) error {
 
 func (e Entity) HasTargetWord() (bool, error) {
 
-	targets, err := e.storage.ReadTargets(e.character)
+	targets, err := e.storage.ReadTargets(e.word)
 	if err != nil {
 		return false, err
 	}
@@ -113,7 +113,7 @@ func (e Entity) HasTargetWord() (bool, error) {
 	case 1:
 		return true, nil
 	default:
-		return false, fmt.Errorf("character has wrong number of target words: %d at %d", len(targets), e.character)
+		return false, fmt.Errorf("character has wrong number of target words: %d at %d", len(targets), e.word)
 	}
 }
 
-- 
2.43.0


From abb6a320ac7d2580344ebab4744e241b081f6975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:04 +0000
Subject: [PATCH 02/15] fix: stop on an error while walking a character, word
 or phrase

Errors were dropped inside the loops, so a phrase with an empty word
("a ", "a  b") or a failing storage ended in a nil pointer panic.
---
 internal/concrete/character/aggragate.go  | 3 +++
 internal/concrete/character/elements.go   | 3 +++
 internal/concrete/character/repository.go | 3 +++
 internal/concrete/phrase/aggregate.go     | 3 +++
 internal/concrete/phrase/repository.go    | 3 +++
 internal/concrete/word/aggregate.go       | 3 +++
 internal/concrete/word/repository.go      | 3 +++
 7 files changed, 21 insertions(+)

diff --git a/internal/concrete/character/aggragate.go b/internal/concrete/character/aggragate.go
index 0a3910e..c9f24ad 100644
--- a/internal/concrete/character/aggragate.go
+++ b/internal/concrete/character/aggragate.go
@@ -54,6 +54,9 @@ func (a Aggregate) Extract() (rune, error) {
 		}
 
 		characterElement, err = characterElement.GetPreviousElement()
+		if err != nil {
+			return 0, err
+		}
 
 		bitValue, err := characterElement.ExtractBitValue()
 		if err != nil {
diff --git a/internal/concrete/character/elements.go b/internal/concrete/character/elements.go
index d88350a..c346197 100644
--- a/internal/concrete/character/elements.go
+++ b/internal/concrete/character/elements.go
@@ -43,6 +43,9 @@ func (e *Elements) ProvideFirstElement(bitValue bool) (abstractCharacter.Element
 	}
 
 	character, err := e.characterFactory.ProvideHeadEntity(class, firstBit)
+	if err != nil {
+		return nil, err
+	}
 
 	return Element{
 		character:        character,
diff --git a/internal/concrete/character/repository.go b/internal/concrete/character/repository.go
index ec0a55a..6b9ec43 100644
--- a/internal/concrete/character/repository.go
+++ b/internal/concrete/character/repository.go
@@ -42,6 +42,9 @@ func (r *Repository) Provide(integer rune) (abstractCharacter.Aggregate, error)
 	for _, bitValue := range path[1:] {
 
 		characterElement, err = characterElement.ProvideNextElement(bitValue)
+		if err != nil {
+			return nil, err
+		}
 	}
 
 	return Aggregate{
diff --git a/internal/concrete/phrase/aggregate.go b/internal/concrete/phrase/aggregate.go
index 2c6519e..502e979 100644
--- a/internal/concrete/phrase/aggregate.go
+++ b/internal/concrete/phrase/aggregate.go
@@ -52,6 +52,9 @@ func (a Aggregate) Extract() (string, error) {
 		}
 
 		phraseElement, err = phraseElement.GetPreviousElement()
+		if err != nil {
+			return "", err
+		}
 
 		wordValue, err := phraseElement.ExtractWordValue()
 		if err != nil {
diff --git a/internal/concrete/phrase/repository.go b/internal/concrete/phrase/repository.go
index 51584c9..33a9a2a 100644
--- a/internal/concrete/phrase/repository.go
+++ b/internal/concrete/phrase/repository.go
@@ -42,6 +42,9 @@ func (r *Repository) Provide(words string) (abstractPhrase.Aggregate, error) {
 	for _, wordValue := range path[1:] {
 
 		phraseElement, err = phraseElement.ProvideNextElement(wordValue)
+		if err != nil {
+			return nil, err
+		}
 	}
 
 	return Aggregate{
diff --git a/internal/concrete/word/aggregate.go b/internal/concrete/word/aggregate.go
index a10c393..c46929d 100644
--- a/internal/concrete/word/aggregate.go
+++ b/internal/concrete/word/aggregate.go
@@ -34,6 +34,9 @@ func (a Aggregate) Extract() (string, error) {
 		}
 
 		wordElement, err = wordElement.GetPreviousElement()
+		if err != nil {
+			return "", err
+		}
 
 		characterValue, err := wordElement.ExtractCharacterValue()
 		if err != nil {
diff --git a/internal/concrete/word/repository.go b/internal/concrete/word/repository.go
index eb21950..316602f 100644
--- a/internal/concrete/word/repository.go
+++ b/internal/concrete/word/repository.go
@@ -46,6 +46,9 @@ func (r *Repository) Provide(word string) (abstractWord.Aggregate, error) {
 	for _, characterValue := range path[1:] {
 
 		wordElement, err = wordElement.ProvideNextElement(characterValue)
+		if err != nil {
+			return nil, err
+		}
 	}
 
 	return Aggregate{
-- 
2.43.0


From 696bff4351a23b791f505e9ccb5a8e7c87ad7c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:04 +0000
Subject: [PATCH 03/15] fix: report storage errors met while looking up
 details, facts and remarks

These errors were dropped and the lookup went on with a void identifier.
---
 internal/concrete/detail/factory.go   |  3 +++
 internal/concrete/fact/aggregate.go   | 15 +++++++++++++++
 internal/concrete/remark/aggregate.go |  3 +++
 3 files changed, 21 insertions(+)

diff --git a/internal/concrete/detail/factory.go b/internal/concrete/detail/factory.go
index 7412678..d817690 100644
--- a/internal/concrete/detail/factory.go
+++ b/internal/concrete/detail/factory.go
@@ -31,6 +31,9 @@ func (f *Factory) ProvideEntity(
 	}
 
 	propertySourceDetails, err := propertyPhrase.GetSourceDetails()
+	if err != nil {
+		return nil, err
+	}
 
 	commonDetailIdentifiers := make([]uint, 0, 1)
 
diff --git a/internal/concrete/fact/aggregate.go b/internal/concrete/fact/aggregate.go
index 798781f..b951c43 100644
--- a/internal/concrete/fact/aggregate.go
+++ b/internal/concrete/fact/aggregate.go
@@ -59,6 +59,9 @@ func (a Aggregate) GetFirstRemark() (uint, error) {
 func (a Aggregate) HasNextStory() (bool, error) {
 
 	storyIdentifier, err := a.fact.GetTargetStory()
+	if err != nil {
+		return false, err
+	}
 
 	story, err := a.storyRepository.FetchByFact(storyIdentifier)
 	if err != nil {
@@ -71,6 +74,9 @@ func (a Aggregate) HasNextStory() (bool, error) {
 func (a Aggregate) ToNextStory() (abstractFact.Aggregate, error) {
 
 	storyIdentifier, err := a.fact.GetTargetStory()
+	if err != nil {
+		return nil, err
+	}
 
 	story, err := a.storyRepository.FetchByFact(storyIdentifier)
 	if err != nil {
@@ -106,6 +112,9 @@ func (a Aggregate) ToNextStory() (abstractFact.Aggregate, error) {
 func (a Aggregate) HasParentStory() (bool, error) {
 
 	storyIdentifier, err := a.fact.GetTargetStory()
+	if err != nil {
+		return false, err
+	}
 
 	story, err := a.storyRepository.FetchByFact(storyIdentifier)
 	if err != nil {
@@ -118,6 +127,9 @@ func (a Aggregate) HasParentStory() (bool, error) {
 func (a Aggregate) ToParentStory() (abstractFact.Aggregate, error) {
 
 	storyIdentifier, err := a.fact.GetTargetStory()
+	if err != nil {
+		return nil, err
+	}
 
 	story, err := a.storyRepository.FetchByFact(storyIdentifier)
 	if err != nil {
@@ -153,6 +165,9 @@ func (a Aggregate) ToParentStory() (abstractFact.Aggregate, error) {
 func (a Aggregate) ToFirstFact() (abstractFact.Aggregate, error) {
 
 	storyIdentifier, err := a.fact.GetTargetStory()
+	if err != nil {
+		return nil, err
+	}
 
 	story, err := a.storyRepository.FetchByFact(storyIdentifier)
 	if err != nil {
diff --git a/internal/concrete/remark/aggregate.go b/internal/concrete/remark/aggregate.go
index 02cc0cc..a60b2cd 100644
--- a/internal/concrete/remark/aggregate.go
+++ b/internal/concrete/remark/aggregate.go
@@ -35,6 +35,9 @@ func (a Aggregate) GetNextRemark() (abstractRemark.Aggregate, error) {
 	}
 
 	nextRemark, err := a.remarkStorage.ReadEntityByPosition(nextRemarkIdentifier)
+	if err != nil {
+		return nil, err
+	}
 
 	class, err := a.classRepository.ProvideEntity()
 	if err != nil {
-- 
2.43.0


From 1ca90efbdad1b591ee3c9aed845c1c217c685bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:24 +0000
Subject: [PATCH 04/15] fix: reach the fact of a remark and the story of a fact
 over their links

The identifiers of the near ends of the links were used, so navigation
never left the remark, and new facts and child stories were attached to
the void node of the storage instead of their story.
---
 internal/concrete/fact/repository.go  | 14 +++++++--
 internal/concrete/remark/aggregate.go | 42 +++++++++++++++++++++++----
 2 files changed, 48 insertions(+), 8 deletions(-)

diff --git a/internal/concrete/fact/repository.go b/internal/concrete/fact/repository.go
index 5304dc9..9284895 100644
--- a/internal/concrete/fact/repository.go
+++ b/internal/concrete/fact/repository.go
@@ -87,7 +87,12 @@ func (r *Repository) CreateNextFact(remarkIdentifier uint) (abstractFact.Aggrega
 		return nil, err
 	}
 
-	story, err := r.storyRepository.FetchByFact(fact.GetStory())
+	storyIdentifier, err := fact.GetTargetStory()
+	if err != nil {
+		return nil, err
+	}
+
+	story, err := r.storyRepository.FetchByFact(storyIdentifier)
 	if err != nil {
 		return nil, err
 	}
@@ -131,7 +136,12 @@ func (r *Repository) CreateChildStoryFact(remarkIdentifier uint) (abstractFact.A
 		return nil, err
 	}
 
-	story, err := r.storyRepository.FetchByFact(fact.GetStory())
+	storyIdentifier, err := fact.GetTargetStory()
+	if err != nil {
+		return nil, err
+	}
+
+	story, err := r.storyRepository.FetchByFact(storyIdentifier)
 	if err != nil {
 		return nil, err
 	}
diff --git a/internal/concrete/remark/aggregate.go b/internal/concrete/remark/aggregate.go
index a60b2cd..43b11ec 100644
--- a/internal/concrete/remark/aggregate.go
+++ b/internal/concrete/remark/aggregate.go
@@ -64,7 +64,12 @@ func (a Aggregate) GetNextRemark() (abstractRemark.Aggregate, error) {
 
 func (a Aggregate) HasNextFact() (bool, error) {
 
-	fact, err := a.factRepository.FetchByRemark(a.remark.GetFact())
+	factIdentifier, err := a.remark.GetTargetFact()
+	if err != nil {
+		return false, err
+	}
+
+	fact, err := a.factRepository.FetchByRemark(factIdentifier)
 	if err != nil {
 		return false, err
 	}
@@ -74,7 +79,12 @@ func (a Aggregate) HasNextFact() (bool, error) {
 
 func (a Aggregate) GetNextFact() (abstractRemark.Aggregate, error) {
 
-	fact, err := a.factRepository.FetchByRemark(a.remark.GetFact())
+	factIdentifier, err := a.remark.GetTargetFact()
+	if err != nil {
+		return nil, err
+	}
+
+	fact, err := a.factRepository.FetchByRemark(factIdentifier)
 	if err != nil {
 		return nil, err
 	}
@@ -142,7 +152,12 @@ func (a Aggregate) GetFirstFact() (abstractRemark.Aggregate, error) {
 
 func (a Aggregate) HasNextStory() (bool, error) {
 
-	fact, err := a.factRepository.FetchByRemark(a.remark.GetFact())
+	factIdentifier, err := a.remark.GetTargetFact()
+	if err != nil {
+		return false, err
+	}
+
+	fact, err := a.factRepository.FetchByRemark(factIdentifier)
 	if err != nil {
 		return false, err
 	}
@@ -152,7 +167,12 @@ func (a Aggregate) HasNextStory() (bool, error) {
 
 func (a Aggregate) GetNextStory() (abstractRemark.Aggregate, error) {
 
-	fact, err := a.factRepository.FetchByRemark(a.remark.GetFact())
+	factIdentifier, err := a.remark.GetTargetFact()
+	if err != nil {
+		return nil, err
+	}
+
+	fact, err := a.factRepository.FetchByRemark(factIdentifier)
 	if err != nil {
 		return nil, err
 	}
@@ -297,7 +317,12 @@ func (a Aggregate) AddFactToStory(object string, property string) (abstractRemar
 
 	// fact
 
-	nextFact, err := a.factRepository.CreateNextFact(a.remark.GetFact())
+	factIdentifier, err := a.remark.GetTargetFact()
+	if err != nil {
+		return nil, err
+	}
+
+	nextFact, err := a.factRepository.CreateNextFact(factIdentifier)
 	if err != nil {
 		return nil, err
 	}
@@ -347,7 +372,12 @@ func (a Aggregate) CreateChildStory(object string, property string) (abstractRem
 
 	// fact
 
-	firstFact, err := a.factRepository.CreateChildStoryFact(a.remark.GetFact())
+	factIdentifier, err := a.remark.GetTargetFact()
+	if err != nil {
+		return nil, err
+	}
+
+	firstFact, err := a.factRepository.CreateChildStoryFact(factIdentifier)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 105b7673fc7a8d837111fcd6881eb2979e8f9653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:55 +0000
Subject: [PATCH 05/15] fix: give a fact added to a story its first remark

Without it GetNextFact refused every added fact.
---
 internal/concrete/remark/aggregate.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/concrete/remark/aggregate.go b/internal/concrete/remark/aggregate.go
index 43b11ec..a4fb3e8 100644
--- a/internal/concrete/remark/aggregate.go
+++ b/internal/concrete/remark/aggregate.go
@@ -332,6 +332,11 @@ func (a Aggregate) AddFactToStory(object string, property string) (abstractRemar
 		return nil, err
 	}
 
+	err = nextFact.PointToRemark(remark.GetFact())
+	if err != nil {
+		return nil, err
+	}
+
 	return Aggregate{
 		remark:           remark,
 		remarkStorage:    a.remarkStorage,
-- 
2.43.0


From 3156cf668620fd9507a02133bb391e101082e589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:55 +0000
Subject: [PATCH 06/15] fix: append a fact added to a story after its last fact

A second fact added from the same remark gave the fact two successors,
which GetNextFact then refused.
---
 internal/concrete/fact/repository.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/internal/concrete/fact/repository.go b/internal/concrete/fact/repository.go
index 9284895..dd2280c 100644
--- a/internal/concrete/fact/repository.go
+++ b/internal/concrete/fact/repository.go
@@ -117,6 +117,27 @@ func (r *Repository) CreateNextFact(remarkIdentifier uint) (abstractFact.Aggrega
 		return nil, err
 	}
 
+	for {
+		hasTargetFact, err := fact.HasTargetFact()
+		if err != nil {
+			return nil, err
+		}
+
+		if !hasTargetFact {
+			break
+		}
+
+		targetFact, err := fact.GetTargetFact()
+		if err != nil {
+			return nil, err
+		}
+
+		fact, err = r.factStorage.ReadEntityByPosition(targetFact)
+		if err != nil {
+			return nil, err
+		}
+	}
+
 	err = fact.PointToPosition(nextFact.GetPosition())
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 61fd1da6227e6d08c2983064aac5636f7aa78fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:55 +0000
Subject: [PATCH 07/15] fix: chain the child stories of a story

A link towards the parent was taken for a link towards a child, so the
children of a top story were not chained, and those of a child story
were appended to the siblings of their parent.
---
 internal/concrete/fact/aggregate.go  |  2 +-
 internal/concrete/fact/repository.go | 22 +++++++++++-----------
 internal/concrete/story/entity.go    |  2 +-
 3 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/internal/concrete/fact/aggregate.go b/internal/concrete/fact/aggregate.go
index b951c43..51e95e4 100644
--- a/internal/concrete/fact/aggregate.go
+++ b/internal/concrete/fact/aggregate.go
@@ -121,7 +121,7 @@ func (a Aggregate) HasParentStory() (bool, error) {
 		return false, err
 	}
 
-	return story.HasSourceTree()
+	return story.HasTargetTree()
 }
 
 func (a Aggregate) ToParentStory() (abstractFact.Aggregate, error) {
diff --git a/internal/concrete/fact/repository.go b/internal/concrete/fact/repository.go
index dd2280c..79c36e2 100644
--- a/internal/concrete/fact/repository.go
+++ b/internal/concrete/fact/repository.go
@@ -167,7 +167,7 @@ func (r *Repository) CreateChildStoryFact(remarkIdentifier uint) (abstractFact.A
 		return nil, err
 	}
 
-	hasTargetTree, err := story.HasTargetTree()
+	hasSourceTree, err := story.HasSourceTree()
 	if err != nil {
 		return nil, err
 	}
@@ -177,14 +177,14 @@ func (r *Repository) CreateChildStoryFact(remarkIdentifier uint) (abstractFact.A
 		return nil, err
 	}
 
-	err = childStory.PointToTree(story.GetTree())
-	if err != nil {
-		return nil, err
-	}
+	if hasSourceTree {
 
-	if hasTargetTree {
+		siblingTree, err := story.GetSourceTree()
+		if err != nil {
+			return nil, err
+		}
 
-		siblingStory, err := r.storyRepository.FetchByTree(story.GetTree())
+		siblingStory, err := r.storyRepository.FetchByTree(siblingTree)
 		if err != nil {
 			return nil, err
 		}
@@ -215,11 +215,11 @@ func (r *Repository) CreateChildStoryFact(remarkIdentifier uint) (abstractFact.A
 			return nil, err
 		}
 
-		err = story.PointToTree(childStory.GetTree())
-		if err != nil {
-			return nil, err
-		}
+	}
 
+	err = childStory.PointToTree(story.GetTree())
+	if err != nil {
+		return nil, err
 	}
 
 	//
diff --git a/internal/concrete/story/entity.go b/internal/concrete/story/entity.go
index 0eb4685..d6181c6 100644
--- a/internal/concrete/story/entity.go
+++ b/internal/concrete/story/entity.go
@@ -130,7 +130,7 @@ func (e Entity) GetSourceTree() (uint, error) {
 		return 0, err
 	}
 
-	if len(sources) != 1 {
+	if len(sources) == 0 {
 		return 0, fmt.Errorf("story has wrong number of source trees")
 	}
 
-- 
2.43.0


From ec45442592bf38f221b86173f4beb1710c6ecd4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:55 +0000
Subject: [PATCH 08/15] fix: refuse an identifier that is not a remark

GetRemark returned a remark made of whatever the identifier belonged to;
adding to it wrote links into unrelated parts of the storage.
---
 internal/concrete/remark/repository.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/internal/concrete/remark/repository.go b/internal/concrete/remark/repository.go
index 60cc3d3..5273132 100644
--- a/internal/concrete/remark/repository.go
+++ b/internal/concrete/remark/repository.go
@@ -1,6 +1,7 @@
 package remark
 
 import (
+	"fmt"
 	"github.com/mem-memov/semnet/internal/abstract"
 	abstractClass "github.com/mem-memov/semnet/internal/abstract/class"
 	abstractDetail "github.com/mem-memov/semnet/internal/abstract/detail"
@@ -94,6 +95,20 @@ func (r *Repository) GetRemark(remarkIdentifier uint) (abstractRemark.Aggregate,
 		return nil, err
 	}
 
+	class, err := r.classRepository.ProvideEntity()
+	if err != nil {
+		return nil, err
+	}
+
+	isRemark, err := class.IsRemark(remark.GetClass())
+	if err != nil {
+		return nil, err
+	}
+
+	if !isRemark {
+		return nil, fmt.Errorf("remark has wrong class: %d", remark.GetClass())
+	}
+
 	return Aggregate{
 		remark:           remark,
 		remarkStorage:    r.remarkStorage,
-- 
2.43.0


From f1189b411e5e617f6e3b9c91a1d17ef9243220d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:55 +0000
Subject: [PATCH 09/15] fix: give a character read by its class its storage

Without it any use of the character ended in a nil pointer panic.
---
 internal/concrete/character/storage.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/concrete/character/storage.go b/internal/concrete/character/storage.go
index 251f279..e64f582 100644
--- a/internal/concrete/character/storage.go
+++ b/internal/concrete/character/storage.go
@@ -80,6 +80,7 @@ func (s *Storage) ReadEntityByClass(class uint) (abstractCharacter.Entity, error
 		bit:       bit,
 		character: character,
 		word:      word,
+		storage:   s.storage,
 	}, nil
 }
 
-- 
2.43.0


From ab7aee9e11e0a47949d3e83b99a256cb18b37c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:55 +0000
Subject: [PATCH 10/15] fix: keep the fact storage while moving between facts

A second move ended in a nil pointer panic.
---
 internal/concrete/fact/aggregate.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/concrete/fact/aggregate.go b/internal/concrete/fact/aggregate.go
index 51e95e4..c4f2a7e 100644
--- a/internal/concrete/fact/aggregate.go
+++ b/internal/concrete/fact/aggregate.go
@@ -47,6 +47,7 @@ func (a Aggregate) ToNextFact() (abstractFact.Aggregate, error) {
 
 	return Aggregate{
 		fact:            nextFact,
+		factStorage:     a.factStorage,
 		storyRepository: a.storyRepository,
 	}, nil
 }
@@ -105,6 +106,7 @@ func (a Aggregate) ToNextStory() (abstractFact.Aggregate, error) {
 
 	return Aggregate{
 		fact:            nextFact,
+		factStorage:     a.factStorage,
 		storyRepository: a.storyRepository,
 	}, nil
 }
@@ -158,6 +160,7 @@ func (a Aggregate) ToParentStory() (abstractFact.Aggregate, error) {
 
 	return Aggregate{
 		fact:            parentFact,
+		factStorage:     a.factStorage,
 		storyRepository: a.storyRepository,
 	}, nil
 }
@@ -186,6 +189,7 @@ func (a Aggregate) ToFirstFact() (abstractFact.Aggregate, error) {
 
 	return Aggregate{
 		fact:            firstFact,
+		factStorage:     a.factStorage,
 		storyRepository: a.storyRepository,
 	}, nil
 }
-- 
2.43.0


From a96a066e78db1db54838bb6b533bfe25a190ac12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:09 +0000
Subject: [PATCH 11/15] fix: link a new detail to its phrases after it is
 complete

When the storage failed in between, a later use of the same phrases found
the incomplete detail and attached the remark to the void node.
---
 internal/concrete/detail/storage.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/internal/concrete/detail/storage.go b/internal/concrete/detail/storage.go
index 9928fa8..4153363 100644
--- a/internal/concrete/detail/storage.go
+++ b/internal/concrete/detail/storage.go
@@ -35,27 +35,27 @@ func (s *Storage) CreateEntity(
 		return nil, err
 	}
 
-	err = objectPhrase.AddTargetDetail(phrase)
+	remark, err := s.storage.Create()
 	if err != nil {
 		return nil, err
 	}
 
-	err = propertyPhrase.AddSourceDetail(phrase)
+	err = s.storage.SetReference(class, phrase)
 	if err != nil {
 		return nil, err
 	}
 
-	remark, err := s.storage.Create()
+	err = s.storage.SetReference(phrase, remark)
 	if err != nil {
 		return nil, err
 	}
 
-	err = s.storage.SetReference(class, phrase)
+	err = objectPhrase.AddTargetDetail(phrase)
 	if err != nil {
 		return nil, err
 	}
 
-	err = s.storage.SetReference(phrase, remark)
+	err = propertyPhrase.AddSourceDetail(phrase)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 3539d37509456d6b511e3fbb15b5088a568f6f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:26 +0000
Subject: [PATCH 12/15] fix: complete class nodes left over by a failed
 initialization

After a storage failure on the first use the class nodes created so far
were taken for the whole set, and later nodes took the missing ones over.
---
 internal/concrete/class/repository.go | 138 +++++++-------------------
 1 file changed, 34 insertions(+), 104 deletions(-)

diff --git a/internal/concrete/class/repository.go b/internal/concrete/class/repository.go
index 5222321..d51c321 100644
--- a/internal/concrete/class/repository.go
+++ b/internal/concrete/class/repository.go
@@ -37,131 +37,61 @@ func (r *Repository) ProvideEntity() (class.Entity, error) {
 
 	if !r.isInitialized {
 
-		hasFirstNode, err := r.storage.Has(1)
+		hasLastNode, err := r.storage.Has(storyIdentifier)
 		if err != nil {
 			return Entity{}, err
 		}
 
-		if !hasFirstNode {
-			result, err := r.storage.Create()
-			if err != nil {
-				return Entity{}, err
-			}
-
-			if result != bitIdentifier {
-				return Entity{}, fmt.Errorf("wrong bit class node %d", result)
-			}
-
-			result, err = r.storage.Create()
-			if err != nil {
-				return Entity{}, err
-			}
-
-			if result != characterIdentifier {
-				return Entity{}, fmt.Errorf("wrong character class node %d", result)
-			}
-
-			err = r.storage.SetReference(bitIdentifier, characterIdentifier)
-			if err != nil {
-				return Entity{}, err
-			}
-
-			result, err = r.storage.Create()
-			if err != nil {
-				return Entity{}, err
-			}
-
-			if result != wordIdentifier {
-				return Entity{}, fmt.Errorf("wrong word class node %d", result)
-			}
-
-			err = r.storage.SetReference(characterIdentifier, wordIdentifier)
-			if err != nil {
-				return Entity{}, err
-			}
-
-			result, err = r.storage.Create()
-			if err != nil {
-				return Entity{}, err
-			}
-
-			if result != phraseIdentifier {
-				return Entity{}, fmt.Errorf("wrong phrase class node %d", result)
-			}
-
-			err = r.storage.SetReference(wordIdentifier, phraseIdentifier)
-			if err != nil {
-				return Entity{}, err
-			}
-
-			result, err = r.storage.Create()
-			if err != nil {
-				return Entity{}, err
-			}
-
-			if result != detailIdentifier {
-				return Entity{}, fmt.Errorf("wrong detail class node %d", result)
-			}
-
-			err = r.storage.SetReference(phraseIdentifier, detailIdentifier)
-			if err != nil {
-				return Entity{}, err
-			}
-
-			result, err = r.storage.Create()
+		if !hasLastNode {
+			err := r.createNodes()
 			if err != nil {
 				return Entity{}, err
 			}
+		}
 
-			if result != remarkIdentifier {
-				return Entity{}, fmt.Errorf("wrong position class node %d", result)
-			}
+		r.entity = newEntity(
+			node.NewBit(bitIdentifier, r.storage),
+			node.NewCharacter(characterIdentifier, r.storage),
+			node.NewWord(wordIdentifier, r.storage),
+			node.NewPhrase(phraseIdentifier, r.storage),
+			node.NewDetail(detailIdentifier, r.storage),
+			node.NewRemark(remarkIdentifier, r.storage),
+			node.NewFact(factIdentifier, r.storage),
+			node.NewStory(storyIdentifier, r.storage),
+		)
+	}
 
-			err = r.storage.SetReference(detailIdentifier, remarkIdentifier)
-			if err != nil {
-				return Entity{}, err
-			}
+	return r.entity, nil
+}
 
-			result, err = r.storage.Create()
-			if err != nil {
-				return Entity{}, err
-			}
+// createNodes creates the class nodes that are missing. An earlier attempt may have failed halfway.
+func (r *Repository) createNodes() error {
 
-			if result != factIdentifier {
-				return Entity{}, fmt.Errorf("wrong fact class node %d", result)
-			}
+	for identifier := bitIdentifier; identifier <= storyIdentifier; identifier++ {
 
-			err = r.storage.SetReference(remarkIdentifier, factIdentifier)
-			if err != nil {
-				return Entity{}, err
-			}
+		hasNode, err := r.storage.Has(identifier)
+		if err != nil {
+			return err
+		}
 
-			result, err = r.storage.Create()
+		if !hasNode {
+			result, err := r.storage.Create()
 			if err != nil {
-				return Entity{}, err
+				return err
 			}
 
-			if result != storyIdentifier {
-				return Entity{}, fmt.Errorf("wrong story class node %d", result)
+			if result != identifier {
+				return fmt.Errorf("wrong class node %d instead of %d", result, identifier)
 			}
+		}
 
-			err = r.storage.SetReference(factIdentifier, storyIdentifier)
+		if identifier != bitIdentifier {
+			err = r.storage.SetReference(identifier-1, identifier)
 			if err != nil {
-				return Entity{}, err
+				return err
 			}
 		}
-
-		r.entity = newEntity(
-			node.NewBit(bitIdentifier, r.storage),
-			node.NewCharacter(characterIdentifier, r.storage),
-			node.NewWord(wordIdentifier, r.storage),
-			node.NewPhrase(phraseIdentifier, r.storage),
-			node.NewDetail(detailIdentifier, r.storage),
-			node.NewRemark(remarkIdentifier, r.storage),
-			node.NewFact(factIdentifier, r.storage),
-			node.NewStory(storyIdentifier, r.storage),
-		)
 	}
 
-	return r.entity, nil
+	return nil
 }
-- 
2.43.0


From 197450e3fc949af3ecfec73ec30343a7758bd3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:26 +0000
Subject: [PATCH 13/15] fix: complete bits left over by a failed initialization

After a storage failure on the first use the bits were either refused for
good or used with the void node as their character.
---
 internal/concrete/bit/layer.go | 146 +++++++++++++--------------------
 1 file changed, 59 insertions(+), 87 deletions(-)

diff --git a/internal/concrete/bit/layer.go b/internal/concrete/bit/layer.go
index 0022055..3bae900 100644
--- a/internal/concrete/bit/layer.go
+++ b/internal/concrete/bit/layer.go
@@ -35,113 +35,85 @@ func (l *layer) initialize() (Entity, Entity, error) {
 			return Entity{}, Entity{}, err
 		}
 
-		switch len(classIdentifiers) {
-		case 0:
-			var classIdentifiers [2]uint
-			var zeroClassIdentifier uint
-			var oneClassIdentifier uint
-
-			classIdentifiers[0], err = classEntity.CreateBit()
+		for len(classIdentifiers) < 2 {
+			classIdentifier, err := classEntity.CreateBit()
 			if err != nil {
 				return Entity{}, Entity{}, err
 			}
 
-			classIdentifiers[1], err = classEntity.CreateBit()
-			if err != nil {
-				return Entity{}, Entity{}, err
-			}
-
-			if classIdentifiers[0] < classIdentifiers[1] {
-				zeroClassIdentifier = classIdentifiers[0]
-				oneClassIdentifier = classIdentifiers[1]
-			} else {
-				zeroClassIdentifier = classIdentifiers[1]
-				oneClassIdentifier = classIdentifiers[0]
-			}
+			classIdentifiers = append(classIdentifiers, classIdentifier)
+		}
 
-			// zero
+		if len(classIdentifiers) != 2 {
+			return Entity{}, Entity{}, fmt.Errorf("wrong number of bit nodes in class %d", len(classIdentifiers))
+		}
 
-			zeroCharacterIdentifier, err := l.storage.Create()
-			if err != nil {
-				return Entity{}, Entity{}, err
-			}
+		var zeroClassIdentifier uint
+		var oneClassIdentifier uint
 
-			err = l.storage.SetReference(zeroClassIdentifier, zeroCharacterIdentifier)
-			if err != nil {
-				return Entity{}, Entity{}, err
-			}
-
-			l.zeroEntity = Entity{
-				value:     false,
-				class:     zeroClassIdentifier,
-				character: zeroCharacterIdentifier,
-				storage:   l.storage,
-			}
+		if classIdentifiers[0] < classIdentifiers[1] {
+			zeroClassIdentifier = classIdentifiers[0]
+			oneClassIdentifier = classIdentifiers[1]
+		} else {
+			zeroClassIdentifier = classIdentifiers[1]
+			oneClassIdentifier = classIdentifiers[0]
+		}
 
-			// one
+		// zero
 
-			oneCharacterIdentifier, err := l.storage.Create()
-			if err != nil {
-				return Entity{}, Entity{}, err
-			}
+		zeroCharacterIdentifier, err := l.provideCharacter(zeroClassIdentifier)
+		if err != nil {
+			return Entity{}, Entity{}, err
+		}
 
-			err = l.storage.SetReference(oneClassIdentifier, oneCharacterIdentifier)
-			if err != nil {
-				return Entity{}, Entity{}, err
-			}
+		l.zeroEntity = Entity{
+			value:     false,
+			class:     zeroClassIdentifier,
+			character: zeroCharacterIdentifier,
+			storage:   l.storage,
+		}
 
-			l.oneEntity = Entity{
-				value:     true,
-				class:     oneClassIdentifier,
-				character: oneCharacterIdentifier,
-				storage:   l.storage,
-			}
+		// one
 
-		case 2:
-			var zeroClassIdentifier uint
-			var oneClassIdentifier uint
+		oneCharacterIdentifier, err := l.provideCharacter(oneClassIdentifier)
+		if err != nil {
+			return Entity{}, Entity{}, err
+		}
 
-			if classIdentifiers[0] < classIdentifiers[1] {
-				zeroClassIdentifier = classIdentifiers[0]
-				oneClassIdentifier = classIdentifiers[1]
-			} else {
-				zeroClassIdentifier = classIdentifiers[1]
-				oneClassIdentifier = classIdentifiers[0]
-			}
+		l.oneEntity = Entity{
+			value:     true,
+			class:     oneClassIdentifier,
+			character: oneCharacterIdentifier,
+			storage:   l.storage,
+		}
 
-			// zero
+		l.isInitialized = true
+	}
 
-			_, zeroCharacterIdentifier, err := l.storage.GetReference(zeroClassIdentifier)
-			if err != nil {
-				return Entity{}, Entity{}, err
-			}
+	return l.zeroEntity, l.oneEntity, nil
+}
 
-			l.zeroEntity = Entity{
-				value:     false,
-				class:     zeroClassIdentifier,
-				character: zeroCharacterIdentifier,
-				storage:   l.storage,
-			}
+// provideCharacter creates the character node of a bit if it is missing. An earlier attempt may have failed halfway.
+func (l *layer) provideCharacter(classIdentifier uint) (uint, error) {
 
-			// one
+	_, characterIdentifier, err := l.storage.GetReference(classIdentifier)
+	if err != nil {
+		return 0, err
+	}
 
-			_, oneCharacterIdentifier, err := l.storage.GetReference(oneClassIdentifier)
-			if err != nil {
-				return Entity{}, Entity{}, err
-			}
+	if characterIdentifier != 0 {
+		return characterIdentifier, nil
+	}
 
-			l.oneEntity = Entity{
-				value:     true,
-				class:     oneClassIdentifier,
-				character: oneCharacterIdentifier,
-				storage:   l.storage,
-			}
-		default:
-			return Entity{}, Entity{}, fmt.Errorf("wrong number of bit nodes in class %d", len(classIdentifiers))
-		}
+	characterIdentifier, err = l.storage.Create()
+	if err != nil {
+		return 0, err
+	}
 
-		l.isInitialized = true
+	err = l.storage.SetReference(classIdentifier, characterIdentifier)
+	if err != nil {
+		return 0, err
 	}
 
-	return l.zeroEntity, l.oneEntity, nil
+	return characterIdentifier, nil
 }
-- 
2.43.0


From c143e01da9e65e87a670f36201d2d349af0c1ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:40 +0000
Subject: [PATCH 14/15] fix: attach a fact or child story only after it is
 complete

When the storage failed between attaching it and giving it its first
remark, the story announced a next fact (or next story) for good that
could not be read.
---
 internal/abstract/fact/repository.go  |   3 +-
 internal/concrete/fact/repository.go  | 143 ++++++++++++--------------
 internal/concrete/remark/aggregate.go |  12 ++-
 3 files changed, 76 insertions(+), 82 deletions(-)

diff --git a/internal/abstract/fact/repository.go b/internal/abstract/fact/repository.go
index cf82db6..c926df4 100644
--- a/internal/abstract/fact/repository.go
+++ b/internal/abstract/fact/repository.go
@@ -4,5 +4,6 @@ type Repository interface {
 	CreateFirstStoryFact() (Aggregate, error)
 	FetchByRemark(remarkIdentifier uint) (Aggregate, error)
 	CreateNextFact(remarkIdentifier uint) (Aggregate, error)
-	CreateChildStoryFact(remarkIdentifier uint) (Aggregate, error)
+	AppendNextFact(remarkIdentifier uint, nextRemarkIdentifier uint) error
+	AppendChildStory(remarkIdentifier uint, childRemarkIdentifier uint) error
 }
diff --git a/internal/concrete/fact/repository.go b/internal/concrete/fact/repository.go
index 79c36e2..edf8735 100644
--- a/internal/concrete/fact/repository.go
+++ b/internal/concrete/fact/repository.go
@@ -117,10 +117,29 @@ func (r *Repository) CreateNextFact(remarkIdentifier uint) (abstractFact.Aggrega
 		return nil, err
 	}
 
+	return Aggregate{
+		fact:            nextFact,
+		factStorage:     r.factStorage,
+		storyRepository: r.storyRepository,
+	}, nil
+}
+
+func (r *Repository) AppendNextFact(remarkIdentifier uint, nextRemarkIdentifier uint) error {
+
+	fact, err := r.factStorage.ReadEntityByRemark(remarkIdentifier)
+	if err != nil {
+		return err
+	}
+
+	nextFact, err := r.factStorage.ReadEntityByRemark(nextRemarkIdentifier)
+	if err != nil {
+		return err
+	}
+
 	for {
 		hasTargetFact, err := fact.HasTargetFact()
 		if err != nil {
-			return nil, err
+			return err
 		}
 
 		if !hasTargetFact {
@@ -129,131 +148,95 @@ func (r *Repository) CreateNextFact(remarkIdentifier uint) (abstractFact.Aggrega
 
 		targetFact, err := fact.GetTargetFact()
 		if err != nil {
-			return nil, err
+			return err
 		}
 
 		fact, err = r.factStorage.ReadEntityByPosition(targetFact)
 		if err != nil {
-			return nil, err
+			return err
 		}
 	}
 
-	err = fact.PointToPosition(nextFact.GetPosition())
-	if err != nil {
-		return nil, err
-	}
-
-	return Aggregate{
-		fact:            nextFact,
-		factStorage:     r.factStorage,
-		storyRepository: r.storyRepository,
-	}, nil
+	return fact.PointToPosition(nextFact.GetPosition())
 }
 
-func (r *Repository) CreateChildStoryFact(remarkIdentifier uint) (abstractFact.Aggregate, error) {
+func (r *Repository) AppendChildStory(remarkIdentifier uint, childRemarkIdentifier uint) error {
 
 	fact, err := r.factStorage.ReadEntityByRemark(remarkIdentifier)
 	if err != nil {
-		return nil, err
+		return err
 	}
 
 	storyIdentifier, err := fact.GetTargetStory()
 	if err != nil {
-		return nil, err
+		return err
 	}
 
 	story, err := r.storyRepository.FetchByFact(storyIdentifier)
 	if err != nil {
-		return nil, err
+		return err
 	}
 
 	hasSourceTree, err := story.HasSourceTree()
 	if err != nil {
-		return nil, err
+		return err
 	}
 
-	childStory, err := r.storyRepository.CreateStory()
+	childFact, err := r.factStorage.ReadEntityByRemark(childRemarkIdentifier)
 	if err != nil {
-		return nil, err
+		return err
 	}
 
-	if hasSourceTree {
-
-		siblingTree, err := story.GetSourceTree()
-		if err != nil {
-			return nil, err
-		}
-
-		siblingStory, err := r.storyRepository.FetchByTree(siblingTree)
-		if err != nil {
-			return nil, err
-		}
-
-		for {
-			hasTargetPosition, err := siblingStory.HasTargetPosition()
-			if err != nil {
-				return nil, err
-			}
-
-			if !hasTargetPosition {
-				break
-			}
-
-			targetPosition, err := siblingStory.GetTargetPosition()
-			if err != nil {
-				return nil, err
-			}
-
-			siblingStory, err = r.storyRepository.FetchByPosition(targetPosition)
-			if err != nil {
-				return nil, err
-			}
-		}
-
-		err = siblingStory.PointToPosition(childStory.GetPosition())
-		if err != nil {
-			return nil, err
-		}
-
+	childStoryIdentifier, err := childFact.GetTargetStory()
+	if err != nil {
+		return err
 	}
 
-	err = childStory.PointToTree(story.GetTree())
+	childStory, err := r.storyRepository.FetchByFact(childStoryIdentifier)
 	if err != nil {
-		return nil, err
+		return err
 	}
 
-	//
+	if !hasSourceTree {
 
-	class, err := r.classRepository.ProvideEntity()
-	if err != nil {
-		return nil, err
+		return childStory.PointToTree(story.GetTree())
 	}
 
-	classIdentifier, err := class.CreateFact()
+	siblingTree, err := story.GetSourceTree()
 	if err != nil {
-		return nil, err
+		return err
 	}
 
-	firstFact, err := r.factStorage.CreateEntity(classIdentifier)
+	siblingStory, err := r.storyRepository.FetchByTree(siblingTree)
 	if err != nil {
-		return nil, err
+		return err
 	}
 
-	err = firstFact.PointToStory(childStory.GetFact())
-	if err != nil {
-		return nil, err
+	for {
+		hasTargetPosition, err := siblingStory.HasTargetPosition()
+		if err != nil {
+			return err
+		}
+
+		if !hasTargetPosition {
+			break
+		}
+
+		targetPosition, err := siblingStory.GetTargetPosition()
+		if err != nil {
+			return err
+		}
+
+		siblingStory, err = r.storyRepository.FetchByPosition(targetPosition)
+		if err != nil {
+			return err
+		}
 	}
 
-	err = childStory.PointToFact(firstFact.GetStory())
+	err = childStory.PointToTree(story.GetTree())
 	if err != nil {
-		return nil, err
+		return err
 	}
 
-	//
-
-	return Aggregate{
-		fact:            firstFact,
-		factStorage:     r.factStorage,
-		storyRepository: r.storyRepository,
-	}, nil
+	return siblingStory.PointToPosition(childStory.GetPosition())
 }
diff --git a/internal/concrete/remark/aggregate.go b/internal/concrete/remark/aggregate.go
index a4fb3e8..d645bce 100644
--- a/internal/concrete/remark/aggregate.go
+++ b/internal/concrete/remark/aggregate.go
@@ -337,6 +337,11 @@ func (a Aggregate) AddFactToStory(object string, property string) (abstractRemar
 		return nil, err
 	}
 
+	err = a.factRepository.AppendNextFact(factIdentifier, nextFact.GetRemark())
+	if err != nil {
+		return nil, err
+	}
+
 	return Aggregate{
 		remark:           remark,
 		remarkStorage:    a.remarkStorage,
@@ -382,7 +387,7 @@ func (a Aggregate) CreateChildStory(object string, property string) (abstractRem
 		return nil, err
 	}
 
-	firstFact, err := a.factRepository.CreateChildStoryFact(factIdentifier)
+	firstFact, err := a.factRepository.CreateFirstStoryFact()
 	if err != nil {
 		return nil, err
 	}
@@ -397,6 +402,11 @@ func (a Aggregate) CreateChildStory(object string, property string) (abstractRem
 		return nil, err
 	}
 
+	err = a.factRepository.AppendChildStory(factIdentifier, firstFact.GetRemark())
+	if err != nil {
+		return nil, err
+	}
+
 	return Aggregate{
 		remark:           remark,
 		remarkStorage:    a.remarkStorage,
-- 
2.43.0


From 11e01ccce1466071d2132e6341afdbc74db26d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:15 +0000
Subject: [PATCH 15/15] fix: refuse malformed texts before a remark is created

---
 internal/concrete/remark/aggregate.go  | 42 +++++++++++++-------------
 internal/concrete/remark/repository.go | 12 ++++----
 2 files changed, 27 insertions(+), 27 deletions(-)

diff --git a/internal/concrete/remark/aggregate.go b/internal/concrete/remark/aggregate.go
index d645bce..dbd0773 100644
--- a/internal/concrete/remark/aggregate.go
+++ b/internal/concrete/remark/aggregate.go
@@ -218,39 +218,39 @@ func (a Aggregate) GetObjectAndProperty() (string, string, error) {
 
 func (a Aggregate) AddRemarkToFact(property string) (abstractRemark.Aggregate, error) {
 
-	class, err := a.classRepository.ProvideEntity()
+	// detail
+
+	detailIdentifier, err := a.remark.GetSourceDetail()
 	if err != nil {
 		return nil, err
 	}
 
-	classIdentifier, err := class.CreateRemark()
+	aggregateDetail, err := a.detailRepository.Fetch(detailIdentifier)
 	if err != nil {
 		return nil, err
 	}
 
-	remark, err := a.remarkStorage.CreateEntity(classIdentifier)
+	aggregateObject, _, err := aggregateDetail.GetObjectAndProperty()
 	if err != nil {
 		return nil, err
 	}
 
-	// detail
-
-	detailIdentifier, err := a.remark.GetSourceDetail()
+	detail, err := a.detailRepository.Provide(aggregateObject, property)
 	if err != nil {
 		return nil, err
 	}
 
-	aggregateDetail, err := a.detailRepository.Fetch(detailIdentifier)
+	class, err := a.classRepository.ProvideEntity()
 	if err != nil {
 		return nil, err
 	}
 
-	aggregateObject, _, err := aggregateDetail.GetObjectAndProperty()
+	classIdentifier, err := class.CreateRemark()
 	if err != nil {
 		return nil, err
 	}
 
-	detail, err := a.detailRepository.Provide(aggregateObject, property)
+	remark, err := a.remarkStorage.CreateEntity(classIdentifier)
 	if err != nil {
 		return nil, err
 	}
@@ -288,24 +288,24 @@ func (a Aggregate) AddRemarkToFact(property string) (abstractRemark.Aggregate, e
 
 func (a Aggregate) AddFactToStory(object string, property string) (abstractRemark.Aggregate, error) {
 
-	class, err := a.classRepository.ProvideEntity()
+	// detail
+
+	detail, err := a.detailRepository.Provide(object, property)
 	if err != nil {
 		return nil, err
 	}
 
-	classIdentifier, err := class.CreateRemark()
+	class, err := a.classRepository.ProvideEntity()
 	if err != nil {
 		return nil, err
 	}
 
-	remark, err := a.remarkStorage.CreateEntity(classIdentifier)
+	classIdentifier, err := class.CreateRemark()
 	if err != nil {
 		return nil, err
 	}
 
-	// detail
-
-	detail, err := a.detailRepository.Provide(object, property)
+	remark, err := a.remarkStorage.CreateEntity(classIdentifier)
 	if err != nil {
 		return nil, err
 	}
@@ -353,24 +353,24 @@ func (a Aggregate) AddFactToStory(object string, property string) (abstractRemar
 
 func (a Aggregate) CreateChildStory(object string, property string) (abstractRemark.Aggregate, error) {
 
-	class, err := a.classRepository.ProvideEntity()
+	// detail
+
+	detail, err := a.detailRepository.Provide(object, property)
 	if err != nil {
 		return nil, err
 	}
 
-	classIdentifier, err := class.CreateRemark()
+	class, err := a.classRepository.ProvideEntity()
 	if err != nil {
 		return nil, err
 	}
 
-	remark, err := a.remarkStorage.CreateEntity(classIdentifier)
+	classIdentifier, err := class.CreateRemark()
 	if err != nil {
 		return nil, err
 	}
 
-	// detail
-
-	detail, err := a.detailRepository.Provide(object, property)
+	remark, err := a.remarkStorage.CreateEntity(classIdentifier)
 	if err != nil {
 		return nil, err
 	}
diff --git a/internal/concrete/remark/repository.go b/internal/concrete/remark/repository.go
index 5273132..bee2d3e 100644
--- a/internal/concrete/remark/repository.go
+++ b/internal/concrete/remark/repository.go
@@ -35,24 +35,24 @@ func NewRepository(
 
 func (r *Repository) CreateFirstUserRemark(object string, property string) (abstractRemark.Aggregate, error) {
 
-	class, err := r.classRepository.ProvideEntity()
+	// detail
+
+	detail, err := r.detailRepository.Provide(object, property)
 	if err != nil {
 		return nil, err
 	}
 
-	classIdentifier, err := class.CreateRemark()
+	class, err := r.classRepository.ProvideEntity()
 	if err != nil {
 		return nil, err
 	}
 
-	remark, err := r.remarkStorage.CreateEntity(classIdentifier)
+	classIdentifier, err := class.CreateRemark()
 	if err != nil {
 		return nil, err
 	}
 
-	// detail
-
-	detail, err := r.detailRepository.Provide(object, property)
+	remark, err := r.remarkStorage.CreateEntity(classIdentifier)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0

