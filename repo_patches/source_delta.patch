From b9f20b4c63a45473077d2ce88a7ce02f371bb245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:07 +0000
Subject: [PATCH 01/31] fix: return the residual or-challenge as a non-negative
 residue

The negative representative identified the branch that was really proved.
---
 zksk/composition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zksk/composition.py b/zksk/composition.py
index 0d4ae5b..16741b1 100644
--- a/zksk/composition.py
+++ b/zksk/composition.py
@@ -36,7 +36,7 @@ def _find_residual_challenge(subchallenges, challenge, modulus):
     modulus = Bn(2).pow(modulus)
     temp_arr = subchallenges.copy()
     temp_arr.append(-challenge)
-    return -sum_bn_array(temp_arr, modulus)
+    return (-sum_bn_array(temp_arr, modulus)) % modulus
 
 
 def _assign_secret_ids(secret_vars):
-- 
2.43.0


From 24912775eba6f35b3945e96d58bd240f14b863a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:12 +0000
Subject: [PATCH 02/31] fix: require exactly one challenge per branch of an
 or-proof

A superfluous challenge could absorb the residual, so that every branch could be simulated.
---
 zksk/composition.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/zksk/composition.py b/zksk/composition.py
index 16741b1..596f437 100644
--- a/zksk/composition.py
+++ b/zksk/composition.py
@@ -421,6 +421,11 @@ class OrProofStmt(_CommonComposedStmtMixin, ComposableProofStmt):
         self.or_challenges = responses[0]
         responses = responses[1]
 
+        # There must be exactly one challenge per subproof: any other challenge would be free to
+        # absorb the residual.
+        if len(self.or_challenges) != len(self.subproofs):
+            raise InconsistentChallengeError("Need one challenge per subproof.")
+
         # We check for challenge consistency i.e the constraint was respected
         if _find_residual_challenge(
             self.or_challenges, challenge, CHALLENGE_LENGTH
-- 
2.43.0


From 9b571bacf5a821871bdc39f0226dd753d0ff567f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:16 +0000
Subject: [PATCH 03/31] fix: require the challenges of an or-proof to lie in
 the challenge space

A challenge congruent modulo the challenge space but arbitrary modulo the group order made it
possible to forge or-proofs.
---
 zksk/composition.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/zksk/composition.py b/zksk/composition.py
index 596f437..4ba656e 100644
--- a/zksk/composition.py
+++ b/zksk/composition.py
@@ -426,6 +426,13 @@ class OrProofStmt(_CommonComposedStmtMixin, ComposableProofStmt):
         if len(self.or_challenges) != len(self.subproofs):
             raise InconsistentChallengeError("Need one challenge per subproof.")
 
+        # The challenges are only constrained modulo the challenge space, so they must lie in it:
+        # otherwise each could be chosen freely modulo the group order.
+        challenge_space = Bn(2).pow(CHALLENGE_LENGTH)
+        for subchallenge in self.or_challenges:
+            if not 0 <= subchallenge < challenge_space:
+                raise InconsistentChallengeError("Challenge out of range.")
+
         # We check for challenge consistency i.e the constraint was respected
         if _find_residual_challenge(
             self.or_challenges, challenge, CHALLENGE_LENGTH
-- 
2.43.0


From 6f43915c85f0ff4c7eaca9205af95fb0e2be6b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:20 +0000
Subject: [PATCH 04/31] fix: check the number of bit commitments of a range
 proof

Superfluous commitments were combined without being proved to be bits, so that values out of range
could be proved.
---
 zksk/primitives/rangeproof.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/zksk/primitives/rangeproof.py b/zksk/primitives/rangeproof.py
index ff57624..8e658d8 100644
--- a/zksk/primitives/rangeproof.py
+++ b/zksk/primitives/rangeproof.py
@@ -154,6 +154,10 @@ class PowerTwoRangeStmt(ExtendedProofStmt):
         """
         rand = precommitment["rand"]
 
+        # Only the first num_bits commitments are proved to be commitments to bits
+        if len(precommitment["Cs"]) != self.num_bits:
+            raise ValidationError("Wrong number of bit commitments")
+
         # Combine bit commitments into value commitment
         combined = self.g.group.infinite()
         power = Bn(1)
-- 
2.43.0


From 0d1c08c057a69ceb33059a17bdadd15ad08b41a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:25 +0000
Subject: [PATCH 05/31] fix: do not mark statements as simulated when proving
 or simulating them

Getting a prover marked the statement as simulated, so that an or-proof could not be proved again,
and an and/or-proof could not be proved after having been simulated.
---
 zksk/composition.py      | 1 -
 zksk/primitives/dlrep.py | 2 +-
 2 files changed, 1 insertion(+), 2 deletions(-)

diff --git a/zksk/composition.py b/zksk/composition.py
index 4ba656e..ba3226f 100644
--- a/zksk/composition.py
+++ b/zksk/composition.py
@@ -301,7 +301,6 @@ class ComposableProofStmt(metaclass=abc.ABCMeta):
         """
         Generate the transcript of a simulated non-interactive proof.
         """
-        self.set_simulated()
         self.prepare_simulate_proof()
         transcript = self.simulate_proof(challenge=challenge)
         transcript.stmt_hash = self.prehash_statement().digest()
diff --git a/zksk/primitives/dlrep.py b/zksk/primitives/dlrep.py
index 27ec139..3052d68 100644
--- a/zksk/primitives/dlrep.py
+++ b/zksk/primitives/dlrep.py
@@ -123,7 +123,7 @@ class DLRep(ComposableProofStmt):
         secrets_dict = self.secret_values
         # If missing secrets or simulation parameter set, return now
         if (
-            self.set_simulated()
+            self.simulated
             or secrets_dict == {}
             or any(sec not in secrets_dict.keys() for sec in set(self.secret_vars))
         ):
-- 
2.43.0


From 41da53e7f72d0c56440de2796a78caa9769c9cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:00 +0000
Subject: [PATCH 06/31] fix: give real and simulated branches precommitments of
 the same form

Simulated and/or-branches had a list of None where real ones have None, which revealed the branch
that was really proved. Empty precommitments in an or-proof were dropped, so that it did not verify.
---
 zksk/composition.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/zksk/composition.py b/zksk/composition.py
index ba3226f..d2eddd5 100644
--- a/zksk/composition.py
+++ b/zksk/composition.py
@@ -61,6 +61,15 @@ def _assign_secret_ids(secret_vars):
     return secret_id_map
 
 
+def _pack_precommitments(precommitments):
+    """
+    Combine the precommitments of subproofs: None if no subproof has one, the whole list otherwise.
+    """
+    if all(precommitment is None for precommitment in precommitments):
+        return None
+    return precommitments
+
+
 class ComposableProofStmt(metaclass=abc.ABCMeta):
     """
     A composable sigma-protocol proof statement.
@@ -564,7 +573,7 @@ class OrProofStmt(_CommonComposedStmtMixin, ComposableProofStmt):
             commitment=com,
             challenge=challenge,
             responses=(or_chals, resp),
-            precommitment=precom,
+            precommitment=_pack_precommitments(precom),
         )
 
 
@@ -609,9 +618,7 @@ class OrProver(Prover):
                 else:
                     index1 = index
                 precommitment.append(self.simulations[index1].precommitment)
-        if not any(precommitment):
-            return None
-        return precommitment
+        return _pack_precommitments(precommitment)
 
     def internal_commit(self, randomizers_dict=None):
         """
@@ -824,7 +831,10 @@ class AndProofStmt(_CommonComposedStmtMixin, ComposableProofStmt):
             precom.append(simulation.precommitment)
 
         return SimulationTranscript(
-            commitment=com, challenge=challenge, responses=resp, precommitment=precom
+            commitment=com,
+            challenge=challenge,
+            responses=resp,
+            precommitment=_pack_precommitments(precom),
         )
 
     def validate_secrets_reoccurence(self, forbidden_secrets=None):
-- 
2.43.0


From 30a7d2c51ed038079a1cb5009f4e30d3cc1300ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:05 +0000
Subject: [PATCH 07/31] fix: enable simulations of extended proofs without
 precommitment

As documented, a primitive that only overrides construct_stmt can be simulated.
---
 zksk/extended.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/zksk/extended.py b/zksk/extended.py
index 047d133..ff7ec2a 100644
--- a/zksk/extended.py
+++ b/zksk/extended.py
@@ -67,8 +67,10 @@ class ExtendedProofStmt(ComposableProofStmt, metaclass=abc.ABCMeta):
         Override this method to enable using this proof in or-proofs.
 
         It should compute the same output as generated by precommit, but without relying on any
-        secrets.
+        secrets. If precommit is not overridden either, there is nothing to simulate.
         """
+        if type(self).precommit is ExtendedProofStmt.precommit:
+            return self.precommit()
         raise StatementSpecError(
             "Override simulate_precommit in order to " "use or-proofs and simulations"
         )
-- 
2.43.0


From 7ab6ced8721e7bd9117d55d4c0345aa5a9861e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:09 +0000
Subject: [PATCH 08/31] fix: let extended proofs of any inner statement be
 verified interactively

Only and-verifiers accept the parameter to skip the check of the inner statement.
---
 zksk/extended.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/zksk/extended.py b/zksk/extended.py
index ff7ec2a..3f87ced 100644
--- a/zksk/extended.py
+++ b/zksk/extended.py
@@ -27,7 +27,9 @@ import abc
 
 from zksk.base import Prover, Verifier
 from zksk.composition import ComposableProofStmt
+from zksk.consts import CHALLENGE_LENGTH
 from zksk.exceptions import StatementSpecError
+from zksk.utils import get_random_num
 from zksk.utils.misc import get_default_attr
 
 
@@ -228,14 +230,12 @@ class ExtendedVerifier(Verifier):
 
     def send_challenge(self, com):
         """
-        Transfer the commitment to the inner proof, and compute the challenge.
+        Store the received commitment, and compute the challenge.
         """
 
         statement, self.commitment = com
         self.stmt.check_statement(statement)
-        self.challenge = self.constructed_verifier.send_challenge(
-            self.commitment, ignore_statement_hash_checks=True
-        )
+        self.challenge = get_random_num(bits=CHALLENGE_LENGTH)
         return self.challenge
 
     def check_responses_consistency(self, responses, responses_dict):
-- 
2.43.0


From a869499adc950fb912f7d99a44b4a1804aa84b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:04 +0000
Subject: [PATCH 09/31] fix: skip and-branches with missing secrets in
 or-proofs

Whether the or-proof could be proved depended on the random order in which branches were tried.
---
 zksk/composition.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/zksk/composition.py b/zksk/composition.py
index d2eddd5..bc5636d 100644
--- a/zksk/composition.py
+++ b/zksk/composition.py
@@ -491,7 +491,7 @@ class OrProofStmt(_CommonComposedStmtMixin, ComposableProofStmt):
         self.chosen_idx = random_gen.choice(possible)
 
         # Feed the selected proof the secrets it needs if we have them, and try to get_prover
-        valid_prover = self.subproofs[self.chosen_idx].get_prover(secrets_dict)
+        valid_prover = self._get_subprover(self.chosen_idx, secrets_dict)
         while valid_prover is None:
             possible.remove(self.chosen_idx)
             # If there is no proof left, abort and say we cannot get a prover
@@ -499,9 +499,19 @@ class OrProofStmt(_CommonComposedStmtMixin, ComposableProofStmt):
                 self.chosen_idx = None
                 return None
             self.chosen_idx = random_gen.choice(possible)
-            valid_prover = self.subproofs[self.chosen_idx].get_prover(secrets_dict)
+            valid_prover = self._get_subprover(self.chosen_idx, secrets_dict)
         return OrProver(self, valid_prover)
 
+    def _get_subprover(self, index, secrets_dict):
+        """
+        Get a prover for the given subproof, or None if it cannot be proved.
+        """
+        try:
+            return self.subproofs[index].get_prover(secrets_dict)
+        except ValueError:
+            # An and-proof with a conjunct that cannot be proved.
+            return None
+
     def get_verifier(self):
         return OrVerifier(self, [sub.get_verifier() for sub in self.subproofs])
 
-- 
2.43.0


From 4c72cb5faa7f6ba310efa07286074a3a4f4714b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:06 +0000
Subject: [PATCH 10/31] fix: skip primitives with missing secrets in or-proofs

Whether the or-proof could be proved depended on the random order in which branches were tried.
---
 zksk/composition.py            | 14 ++++++++++++++
 zksk/primitives/bbsplus.py     |  5 +++++
 zksk/primitives/dl_notequal.py |  3 +++
 zksk/primitives/rangeproof.py  |  3 +++
 4 files changed, 25 insertions(+)

diff --git a/zksk/composition.py b/zksk/composition.py
index bc5636d..bcbefd9 100644
--- a/zksk/composition.py
+++ b/zksk/composition.py
@@ -242,6 +242,15 @@ class ComposableProofStmt(metaclass=abc.ABCMeta):
         # TODO: calling return here is deceptive if we ask to throw an Exception
         return self.validate(*args, **kwargs)
 
+    def has_missing_secrets(self):
+        """
+        Tell if values of secrets needed for proving are missing. Override if needed.
+
+        Override this method if the prover cannot tell by itself, to enable or-proofs to skip this
+        proof if its secrets are missing.
+        """
+        return False
+
     def validate_secrets_reoccurence(self, forbidden_secrets=None):
         """
         Check if a secret appears both inside an outside an or-proof.
@@ -506,6 +515,8 @@ class OrProofStmt(_CommonComposedStmtMixin, ComposableProofStmt):
         """
         Get a prover for the given subproof, or None if it cannot be proved.
         """
+        if self.subproofs[index].has_missing_secrets():
+            return None
         try:
             return self.subproofs[index].get_prover(secrets_dict)
         except ValueError:
@@ -750,6 +761,9 @@ class AndProofStmt(_CommonComposedStmtMixin, ComposableProofStmt):
         # occurrences of the same proof in the tree indeed have their own randomnesses.
         self.subproofs = [copy.copy(p) for p in list(subproofs)]
 
+    def has_missing_secrets(self):
+        return any(sub.has_missing_secrets() for sub in self.subproofs)
+
     def validate_composition(self, *args, **kwargs):
         """
         Validate that composition is done correctly.
diff --git a/zksk/primitives/bbsplus.py b/zksk/primitives/bbsplus.py
index 62edede..9f3f3ad 100644
--- a/zksk/primitives/bbsplus.py
+++ b/zksk/primitives/bbsplus.py
@@ -254,6 +254,11 @@ class BBSPlusSignatureStmt(ExtendedProofStmt):
 
         self.set_simulated(simulated)
 
+    def has_missing_secrets(self):
+        return self.signature is None or any(
+            secret.value is None for secret in self.secret_vars
+        )
+
     def precommit(self):
         """
         Generate the lacking information to construct a complete proof.
diff --git a/zksk/primitives/dl_notequal.py b/zksk/primitives/dl_notequal.py
index 713254b..082f5d4 100644
--- a/zksk/primitives/dl_notequal.py
+++ b/zksk/primitives/dl_notequal.py
@@ -60,6 +60,9 @@ class DLNotEqual(ExtendedProofStmt):
         self.bind = bind
         self.set_simulated(simulated)
 
+    def has_missing_secrets(self):
+        return self.x.value is None
+
     def precommit(self):
         """Build the left-hand side of the internal proof statement."""
         order = self.g.group.order()
diff --git a/zksk/primitives/rangeproof.py b/zksk/primitives/rangeproof.py
index 8e658d8..dea02aa 100644
--- a/zksk/primitives/rangeproof.py
+++ b/zksk/primitives/rangeproof.py
@@ -79,6 +79,9 @@ class PowerTwoRangeStmt(ExtendedProofStmt):
         # The constructed proofs need extra randomizers as secrets
         self.randomizers = [Secret() for _ in range(self.num_bits)]
 
+    def has_missing_secrets(self):
+        return not self.is_prover
+
     def precommit(self):
         """
         Commit to the bit-decomposition of the value.
-- 
2.43.0


From 8a6dd0c6694e1e6c905b6c2381af62421b423630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:10 +0000
Subject: [PATCH 11/31] fix: copy nested subproofs when composing

Subproofs of composed operands were shared between the occurrences of the operand, and changing them
changed the composed proof.
---
 zksk/composition.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/zksk/composition.py b/zksk/composition.py
index bcbefd9..3fca0b4 100644
--- a/zksk/composition.py
+++ b/zksk/composition.py
@@ -350,6 +350,13 @@ class ComposableProofStmt(metaclass=abc.ABCMeta):
 
 
 class _CommonComposedStmtMixin:
+    def __copy__(self):
+        # The subproofs are copied too, otherwise they would be shared between the copies.
+        new = self.__class__.__new__(self.__class__)
+        new.__dict__.update(self.__dict__)
+        new.subproofs = [copy.copy(p) for p in self.subproofs]
+        return new
+
     def get_secret_vars(self):
         secret_vars = []
         for sub in self.subproofs:
-- 
2.43.0


From 7ccc5c38ef773a15bb578391670e40b6c4f196b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:15 +0000
Subject: [PATCH 12/31] fix: give copies of primitives their own internal
 secrets

The same primitive could not occur twice in an and-proof, as its occurrences shared their internal
secrets, but not their values.
---
 zksk/primitives/bbsplus.py     | 7 +++++++
 zksk/primitives/dl_notequal.py | 7 +++++++
 zksk/primitives/rangeproof.py  | 7 +++++++
 3 files changed, 21 insertions(+)

diff --git a/zksk/primitives/bbsplus.py b/zksk/primitives/bbsplus.py
index 9f3f3ad..dc2e4c1 100644
--- a/zksk/primitives/bbsplus.py
+++ b/zksk/primitives/bbsplus.py
@@ -254,6 +254,13 @@ class BBSPlusSignatureStmt(ExtendedProofStmt):
 
         self.set_simulated(simulated)
 
+    def __copy__(self):
+        # Occurrences of the same proof have their own internal secrets.
+        new = self.__class__.__new__(self.__class__)
+        new.__dict__.update(self.__dict__)
+        new.r1, new.r2, new.delta1, new.delta2 = Secret(), Secret(), Secret(), Secret()
+        return new
+
     def has_missing_secrets(self):
         return self.signature is None or any(
             secret.value is None for secret in self.secret_vars
diff --git a/zksk/primitives/dl_notequal.py b/zksk/primitives/dl_notequal.py
index 082f5d4..4e974dd 100644
--- a/zksk/primitives/dl_notequal.py
+++ b/zksk/primitives/dl_notequal.py
@@ -60,6 +60,13 @@ class DLNotEqual(ExtendedProofStmt):
         self.bind = bind
         self.set_simulated(simulated)
 
+    def __copy__(self):
+        # Occurrences of the same proof have their own internal secrets.
+        new = self.__class__.__new__(self.__class__)
+        new.__dict__.update(self.__dict__)
+        new.alpha, new.beta = Secret(), Secret()
+        return new
+
     def has_missing_secrets(self):
         return self.x.value is None
 
diff --git a/zksk/primitives/rangeproof.py b/zksk/primitives/rangeproof.py
index dea02aa..4d686ac 100644
--- a/zksk/primitives/rangeproof.py
+++ b/zksk/primitives/rangeproof.py
@@ -79,6 +79,13 @@ class PowerTwoRangeStmt(ExtendedProofStmt):
         # The constructed proofs need extra randomizers as secrets
         self.randomizers = [Secret() for _ in range(self.num_bits)]
 
+    def __copy__(self):
+        # Occurrences of the same proof have their own internal secrets.
+        new = self.__class__.__new__(self.__class__)
+        new.__dict__.update(self.__dict__)
+        new.randomizers = [Secret() for _ in range(self.num_bits)]
+        return new
+
     def has_missing_secrets(self):
         return not self.is_prover
 
-- 
2.43.0


From 586dcbcd6dea753dda3406e3ef2035b860fbea23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:58 +0000
Subject: [PATCH 13/31] fix: do not share secret values between copies of a
 statement

Values passed to prove an operand of a composed proof were used by the composed proof.
---
 zksk/primitives/dlrep.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/zksk/primitives/dlrep.py b/zksk/primitives/dlrep.py
index 3052d68..40d07c7 100644
--- a/zksk/primitives/dlrep.py
+++ b/zksk/primitives/dlrep.py
@@ -105,6 +105,13 @@ class DLRep(ComposableProofStmt):
         self.lhs = lhs
         self.set_simulated(simulated)
 
+    def __copy__(self):
+        # Secret values passed to one copy do not concern the others.
+        new = self.__class__.__new__(self.__class__)
+        new.__dict__.update(self.__dict__)
+        new.secret_values = dict(self.secret_values)
+        return new
+
     def get_prover(self, secrets_dict=None):
         """
         Get a prover for the current proof statement.
-- 
2.43.0


From c9e7cde5036ed2c90c57f4ad66388747d9dd38c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:06 +0000
Subject: [PATCH 14/31] fix: do not change an expression by adding to it

The sum was the first operand itself, extended, so an expression used twice got extra terms.
---
 zksk/expr.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/zksk/expr.py b/zksk/expr.py
index 955c39e..afd34aa 100644
--- a/zksk/expr.py
+++ b/zksk/expr.py
@@ -56,9 +56,10 @@ class Expression:
             raise InvalidExpression(
                 "Invalid expression. Only linear combinations of group elements are supported."
             )
-        self._secrets.extend(other._secrets)
-        self._bases.extend(other._bases)
-        return self
+        result = Expression(self._secrets[0], self._bases[0])
+        result._secrets = self._secrets + other._secrets
+        result._bases = self._bases + other._bases
+        return result
 
     @property
     def secrets(self):
-- 
2.43.0


From 68f5f524c63a8d9900294946e9cbd7e0ae60b4dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:10 +0000
Subject: [PATCH 15/31] fix: support range proofs of one bit and for ranges of
 one value

There was no proof for ranges of one or two values, as an and-proof needs two subproofs.
---
 zksk/primitives/rangeproof.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/zksk/primitives/rangeproof.py b/zksk/primitives/rangeproof.py
index 4d686ac..f374725 100644
--- a/zksk/primitives/rangeproof.py
+++ b/zksk/primitives/rangeproof.py
@@ -140,6 +140,8 @@ class PowerTwoRangeStmt(ExtendedProofStmt):
 
             bit_proofs.append(p0 | p1)
 
+        if len(bit_proofs) == 1:
+            return bit_proofs[0]
         return AndProofStmt(*bit_proofs)
 
     def simulate_precommit(self):
@@ -227,7 +229,7 @@ class GenericRangeStmtMaker:
         """
         a = ensure_bn(a)
         b = ensure_bn(b)
-        num_bits = (b - a - 1).num_bits()
+        num_bits = max(1, (b - a - 1).num_bits())
         offset = Bn(2) ** num_bits - (b - a)
 
         com_shifted1 = com - a * g
@@ -298,7 +300,7 @@ class GenericRangeOnlyStmtMaker:
 
         a = ensure_bn(a)
         b = ensure_bn(b)
-        num_bits = (b - a - 1).num_bits()
+        num_bits = max(1, (b - a - 1).num_bits())
         offset = Bn(2) ** num_bits - (b - a)
         com_shifted1 = com - a * g
         com_shifted2 = com_shifted1 + offset * g
-- 
2.43.0


From 8a995d87763bd8e37db42b596a6b5c734988cd3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:15 +0000
Subject: [PATCH 16/31] fix: allow simulating a range proof whose known value
 is out of range

A false range proof marked as simulated in an or-proof raised an exception.
---
 zksk/primitives/rangeproof.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/zksk/primitives/rangeproof.py b/zksk/primitives/rangeproof.py
index f374725..4a6e78e 100644
--- a/zksk/primitives/rangeproof.py
+++ b/zksk/primitives/rangeproof.py
@@ -121,9 +121,11 @@ class PowerTwoRangeStmt(ExtendedProofStmt):
         """
         Construct the internal proof statement.
         """
-        if self.is_prover:
+        # A value that is out of range can only be simulated, whatever the bits
+        actual_value = ensure_bn(self.x.value) if self.is_prover else None
+        in_range = self.is_prover and 0 <= actual_value < Bn(2) ** self.num_bits
+        if in_range:
             # Indicators that tell us which or-clause is true
-            actual_value = ensure_bn(self.x.value)
             value_as_bits = decompose_into_n_bits(actual_value, self.num_bits)
             zero_simulated = [b == 1 for b in value_as_bits]
             one_simulated = [b == 0 for b in value_as_bits]
@@ -134,7 +136,7 @@ class PowerTwoRangeStmt(ExtendedProofStmt):
             p1 = DLRep(precommitment["Cs"][i] - self.g, self.randomizers[i] * self.h)
 
             # When we are a prover, mark which disjunct is true
-            if self.is_prover:
+            if in_range:
                 p0.set_simulated(zero_simulated[i])
                 p1.set_simulated(one_simulated[i])
 
-- 
2.43.0


From 754e153ac011dcfeeec42c1dd85bb7734f750bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:11 +0000
Subject: [PATCH 17/31] fix: validate the composition of simulated branches and
 of extended proofs

Secrets used inside and outside of an or-proof were only rejected if the prover happened to choose
the branch containing them, and not at all if the or-proof was the inner proof of a primitive.
---
 zksk/composition.py | 14 +++++++++++++-
 zksk/extended.py    |  6 ++++++
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/zksk/composition.py b/zksk/composition.py
index 3fca0b4..f8f75c4 100644
--- a/zksk/composition.py
+++ b/zksk/composition.py
@@ -259,6 +259,14 @@ class ComposableProofStmt(metaclass=abc.ABCMeta):
         """
         pass
 
+    def validate_composition(self):
+        """
+        Validate that composition is done correctly.
+
+        Does nothing if not overriden.
+        """
+        pass
+
     def update_randomizers(self, randomizers_dict):
         """
         Construct a mapping of all secrets to randomizers.
@@ -535,9 +543,11 @@ class OrProofStmt(_CommonComposedStmtMixin, ComposableProofStmt):
 
     def validate_composition(self):
         """
-        Validate that composition is done correctly.
+        Validate that composition is done correctly, in all branches.
         """
         self.validate_group_orders()
+        for sub in self.subproofs:
+            sub.validate_composition()
 
     def validate_secrets_reoccurence(self, forbidden_secrets=None):
         """
@@ -777,6 +787,8 @@ class AndProofStmt(_CommonComposedStmtMixin, ComposableProofStmt):
         """
         self.validate_group_orders()
         self.validate_secrets_reoccurence()
+        for sub in self.subproofs:
+            sub.validate_composition()
 
     def recompute_commitment(self, challenge, responses):
         com = []
diff --git a/zksk/extended.py b/zksk/extended.py
index 3f87ced..6066e30 100644
--- a/zksk/extended.py
+++ b/zksk/extended.py
@@ -124,6 +124,12 @@ class ExtendedProofStmt(ComposableProofStmt, metaclass=abc.ABCMeta):
     def recompute_commitment(self, challenge, responses):
         return self.constructed_stmt.recompute_commitment(challenge, responses)
 
+    def validate_secrets_reoccurence(self, forbidden_secrets=None):
+        self.constructed_stmt.validate_secrets_reoccurence(forbidden_secrets)
+
+    def validate_composition(self):
+        self.constructed_stmt.validate_composition()
+
     def get_proof_id(self, secret_id_map=None):
         """
         Identifier for the proof statement.
-- 
2.43.0


From 7b313b3e6d77621f19a749c1b358ac79167be029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:17 +0000
Subject: [PATCH 18/31] fix: represent pairing points by their encoding

The representation is part of the statement identifier, but was a hash that is different in every
process, so that proofs could not be verified in another process.
---
 zksk/pairings.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/zksk/pairings.py b/zksk/pairings.py
index 01667af..1da8ede 100644
--- a/zksk/pairings.py
+++ b/zksk/pairings.py
@@ -117,7 +117,7 @@ class AdditivePoint:
     __rmul__ = __mul__
 
     def __repr__(self):
-        return "GTPt(" + str(self.pt.__hash__()) + ")"
+        return "GTPt(" + self.export().hex() + ")"
 
 
 class G1Point:
@@ -158,7 +158,7 @@ class G1Point:
         return AdditivePoint(self.bp.bpgp.pair(self.pt, other.pt), self.bp)
 
     def __repr__(self):
-        return "G1Pt(" + str(self.pt.__hash__()) + ")"
+        return "G1Pt(" + self.export().hex() + ")"
 
 
 class G2Point:
@@ -196,7 +196,7 @@ class G2Point:
     __rmul__ = __mul__
 
     def __repr__(self):
-        return "G2Pt(" + str(self.pt.__hash__()) + ")"
+        return "G2Pt(" + self.export().hex() + ")"
 
 
 class G1Group:
-- 
2.43.0


From 24fe55d18d9252f26c510a3bc41c060bd55758c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:22 +0000
Subject: [PATCH 19/31] fix: compare pairing groups by value

Points that had been decoded were in another group than all others, so that deserialized proofs of
possession of a signature could not be verified. Comparing with a group of another library failed.
---
 zksk/pairings.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/zksk/pairings.py b/zksk/pairings.py
index 1da8ede..11440e7 100644
--- a/zksk/pairings.py
+++ b/zksk/pairings.py
@@ -58,6 +58,9 @@ class GTGroup:
     def order(self):
         return self.bp.bpgp.order()
 
+    def __eq__(self, other):
+        return self.__class__ == other.__class__ and self.bp.bpgp == other.bp.bpgp
+
     def generator(self):
         if self.gen is None:
             self.gen = self.bp.G1.generator().pair(self.bp.G2.generator())
@@ -226,7 +229,7 @@ class G1Group:
         return self.bp.bpgp.order()
 
     def __eq__(self, other):
-        return self.bp.bpgp == other.bp.bpgp and self.__class__ == other.__class__
+        return self.__class__ == other.__class__ and self.bp.bpgp == other.bp.bpgp
 
     def hash_to_point(self, string):
         return G1Point(self.bp.bpgp.hashG1(string), self.bp)
@@ -273,6 +276,9 @@ class G2Group:
     def order(self):
         return self.bp.bpgp.order()
 
+    def __eq__(self, other):
+        return self.__class__ == other.__class__ and self.bp.bpgp == other.bp.bpgp
+
     # TODO throw these on a base class
     def sum(self, points):
         res = self.infinite()
-- 
2.43.0


From 50a18fe6cb452fdd59f0fec066b19a67a0f07f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:28 +0000
Subject: [PATCH 20/31] fix: reject weighted sums with lists of different
 lengths in pairing groups

The longer list was truncated, so that a signature verified with additional messages that were not
signed, if there were not enough generators for them.
---
 zksk/pairings.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/zksk/pairings.py b/zksk/pairings.py
index 11440e7..be745c0 100644
--- a/zksk/pairings.py
+++ b/zksk/pairings.py
@@ -73,6 +73,8 @@ class GTGroup:
         return res
 
     def wsum(self, weights, generators):
+        if len(weights) != len(generators):
+            raise ValueError("Should have as many weights as generators.")
         res = self.infinite()
         for w, g in zip(weights, generators):
             res = res + w * g
@@ -243,6 +245,8 @@ class G1Group:
 
     # TODO throw these on a base class
     def wsum(self, weights, generators):
+        if len(weights) != len(generators):
+            raise ValueError("Should have as many weights as generators.")
         res = self.infinite()
         for w, g in zip(weights, generators):
             res = res + w * g
@@ -287,6 +291,8 @@ class G2Group:
         return res
 
     def wsum(self, weights, generators):
+        if len(weights) != len(generators):
+            raise ValueError("Should have as many weights as generators.")
         res = self.infinite()
         for w, g in zip(weights, generators):
             res = res + w * g
-- 
2.43.0


From 4dc42321224838584e5c9c83d0fc824ababc152a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:33 +0000
Subject: [PATCH 21/31] fix: forget the blinding of the previous commitment of
 a signature creator

A signature on a commitment without blinding was spoilt if the previous commitment had one.
---
 zksk/primitives/bbsplus.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/zksk/primitives/bbsplus.py b/zksk/primitives/bbsplus.py
index dc2e4c1..0ad4880 100644
--- a/zksk/primitives/bbsplus.py
+++ b/zksk/primitives/bbsplus.py
@@ -95,6 +95,7 @@ class BBSPlusSignatureCreator:
             messages, self.pk.generators[2 : len(messages) + 2]
         )
         com_nizk_proof = None
+        self.s1 = None
         if zkp:
             self.s1 = self.pk.generators[0].group.order().random()
             lhs = self.s1 * self.pk.generators[1] + lhs
-- 
2.43.0


From 1b4bd0173c77693761b6d265fd68ebe25f278097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:40 +0000
Subject: [PATCH 22/31] fix: use the group passed to a bilinear group pair

The pair had no underlying group if one was passed.
---
 zksk/pairings.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/zksk/pairings.py b/zksk/pairings.py
index be745c0..4a32b90 100644
--- a/zksk/pairings.py
+++ b/zksk/pairings.py
@@ -20,7 +20,8 @@ class BilinearGroupPair:
 
     def __init__(self, bp_group=None):
         if bp_group is None:
-            self.bpgp = BpGroup()
+            bp_group = BpGroup()
+        self.bpgp = bp_group
         self.GT = GTGroup(self)
         self.G1 = G1Group(self)
         self.G2 = G2Group(self)
-- 
2.43.0


From 6ee286b1ee96c9d8d33719c1129633a02702e38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:46 +0000
Subject: [PATCH 23/31] fix: identify extended proofs by the encoding of their
 precommitment

The identifier of a statement whose precommitment contains tuples, which are decoded as lists, was
different for a deserialized proof.
---
 zksk/extended.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/zksk/extended.py b/zksk/extended.py
index 6066e30..1d36f85 100644
--- a/zksk/extended.py
+++ b/zksk/extended.py
@@ -25,6 +25,8 @@ The protocol of an extended proof is as follows:
 
 import abc
 
+from petlib.pack import encode
+
 from zksk.base import Prover, Verifier
 from zksk.composition import ComposableProofStmt
 from zksk.consts import CHALLENGE_LENGTH
@@ -137,7 +139,7 @@ class ExtendedProofStmt(ComposableProofStmt, metaclass=abc.ABCMeta):
         if self.constructed_stmt is not None:
             proof_id = [
                 self.__class__.__name__,
-                self.precommitment,
+                encode(self.precommitment),
                 self.constructed_stmt.get_proof_id(secret_id_map),
             ]
         else:
-- 
2.43.0


From 1bd253dfc35f804f64e5d35bc5cbd6f74d6ecf09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:15 +0000
Subject: [PATCH 24/31] fix: encode all elements hashed into the challenge

A precommitment that is a string could not be hashed, one that is bytes was not delimited.
---
 zksk/base.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/zksk/base.py b/zksk/base.py
index e181697..12b1e76 100644
--- a/zksk/base.py
+++ b/zksk/base.py
@@ -81,11 +81,7 @@ def build_fiat_shamir_challenge(stmt_prehash, *args, message=""):
     """
     # Start building the complete hash for the challenge
     for elem in args:
-        if not isinstance(elem, bytes) and not isinstance(elem, str):
-            encoded = encode(elem)
-        else:
-            encoded = elem
-        stmt_prehash.update(encoded)
+        stmt_prehash.update(encode(elem))
 
     stmt_prehash.update(message.encode())
     return Bn.from_hex(stmt_prehash.hexdigest())
-- 
2.43.0


From 9fb368d044995e552b4e51ada2385686e5072559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:13 +0000
Subject: [PATCH 25/31] fix: multiply points of the target group by zero

---
 zksk/pairings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zksk/pairings.py b/zksk/pairings.py
index 4a32b90..b614639 100644
--- a/zksk/pairings.py
+++ b/zksk/pairings.py
@@ -108,7 +108,7 @@ class AdditivePoint:
         this value.
         """
         if nb == 0:
-            return AdditivePoint(self.pt / self.pt, self.bp)
+            return self.group.infinite()
         return AdditivePoint(self.pt ** nb, self.bp)
 
     def __eq__(self, other):
-- 
2.43.0


From e5a542a43d80cbf03e22b248daaa36fda381e71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:19 +0000
Subject: [PATCH 26/31] fix: subtract points of the target group

---
 zksk/pairings.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/zksk/pairings.py b/zksk/pairings.py
index b614639..28dafc3 100644
--- a/zksk/pairings.py
+++ b/zksk/pairings.py
@@ -120,6 +120,9 @@ class AdditivePoint:
         """
         return AdditivePoint(self.pt * (other.pt), self.bp)
 
+    def __sub__(self, other):
+        return self + (-1 * other)
+
     __rmul__ = __mul__
 
     def __repr__(self):
-- 
2.43.0


From c3c6cdbccf4a0950bc7ad552f327ae84aac1f2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:02 +0000
Subject: [PATCH 27/31] fix: use new simulations for every proof made by a
 disjunction's prover

---
 zksk/composition.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/zksk/composition.py b/zksk/composition.py
index f8f75c4..cea1366 100644
--- a/zksk/composition.py
+++ b/zksk/composition.py
@@ -631,6 +631,8 @@ class OrProver(Prover):
 
         # Create a list storing the SimulationTranscripts
         self.setup_simulations()
+        self._precommitted = False
+        self._committed = False
 
     def setup_simulations(self):
         """
@@ -644,6 +646,13 @@ class OrProver(Prover):
                 self.simulations.append(sim)
 
     def precommit(self):
+        # Simulations must never be used for two proofs: the branch that is proved would be the only
+        # one to change from one proof to the other.
+        if self._precommitted or self._committed:
+            self.setup_simulations()
+        self._precommitted = True
+        self._committed = False
+
         # Generate precommitment for the legit subprover, and gather the precommitments from the
         # stored simulations.
         precommitment = []
@@ -669,6 +678,15 @@ class OrProver(Prover):
         # Now that all proofs have been constructed, we can check
         self.stmt.validate_composition()
 
+        # Use new simulations for a new commitment, but for the precommitments already sent.
+        if self._committed:
+            self.simulations = [
+                subproof.simulate_proof()
+                for index, subproof in enumerate(self.stmt.subproofs)
+                if index != self.true_prover_idx
+            ]
+        self._committed = True
+
         commitment = []
         for index, _ in enumerate(self.stmt.subproofs):
             if index == self.true_prover_idx:
-- 
2.43.0


From b275abd380ec983ecfda93121ef8aff801894d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:21 +0000
Subject: [PATCH 28/31] fix: keep the commitment and challenge of a session
 when another commitment is refused

---
 zksk/base.py        | 3 ++-
 zksk/composition.py | 7 +++----
 zksk/extended.py    | 3 ++-
 3 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/zksk/base.py b/zksk/base.py
index 12b1e76..77e35e0 100644
--- a/zksk/base.py
+++ b/zksk/base.py
@@ -194,8 +194,9 @@ class Verifier(metaclass=abc.ABCMeta):
                 compared against the local statement, and the commmitment as a
                 (potentially multi-level list of) base(s) of the group.
         """
-        statement, self.commitment = commitment
+        statement, commitment = commitment
         self.stmt.check_statement(statement)
+        self.commitment = commitment
         self.challenge = get_random_num(bits=CHALLENGE_LENGTH)
         return self.challenge
 
diff --git a/zksk/composition.py b/zksk/composition.py
index cea1366..8e258e4 100644
--- a/zksk/composition.py
+++ b/zksk/composition.py
@@ -991,11 +991,10 @@ class AndVerifier(Verifier):
                 simply the actual commitment. Useful in 2-level proofs for which
                 we don't check the inner statements.
         """
-        if ignore_statement_hash_checks:
-            self.commitment = commitment
-        else:
-            statement, self.commitment = commitment
+        if not ignore_statement_hash_checks:
+            statement, commitment = commitment
             self.stmt.check_statement(statement)
+        self.commitment = commitment
         self.challenge = get_random_num(CHALLENGE_LENGTH)
         return self.challenge
 
diff --git a/zksk/extended.py b/zksk/extended.py
index 1d36f85..63ea32d 100644
--- a/zksk/extended.py
+++ b/zksk/extended.py
@@ -241,8 +241,9 @@ class ExtendedVerifier(Verifier):
         Store the received commitment, and compute the challenge.
         """
 
-        statement, self.commitment = com
+        statement, commitment = com
         self.stmt.check_statement(statement)
+        self.commitment = commitment
         self.challenge = get_random_num(bits=CHALLENGE_LENGTH)
         return self.challenge
 
-- 
2.43.0


From 52fb1a921c6b2286e22fa666695e0eb6b9efebd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:53 +0000
Subject: [PATCH 29/31] fix: give no prover for a primitive without
 precommitment that cannot be proved

In a disjunction, a primitive that only defines its internal statement could
be chosen although its secrets were unknown, and proving then failed.
---
 zksk/extended.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/zksk/extended.py b/zksk/extended.py
index 63ea32d..986080a 100644
--- a/zksk/extended.py
+++ b/zksk/extended.py
@@ -118,6 +118,13 @@ class ExtendedProofStmt(ComposableProofStmt, metaclass=abc.ABCMeta):
         self.secret_values = {}
         self.secret_values.update(secrets_dict)
 
+        # Without a precommitment of its own, the internal proof statement is known in advance, and
+        # so is whether it can be proved.
+        if type(self).precommit is ExtendedProofStmt.precommit:
+            internal_stmt = self.construct_stmt(self.precommit())
+            if internal_stmt.get_prover(self.secret_values) is None:
+                return None
+
         return ExtendedProver(self, self.secret_values)
 
     def get_verifier_cls(self):
-- 
2.43.0


From 66d47be811d9aa8e099f5e265dfe246cbfaf53a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:08 +0000
Subject: [PATCH 30/31] fix: register the coders of pairing points along with
 those of proofs

---
 zksk/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/zksk/base.py b/zksk/base.py
index 77e35e0..aed443c 100644
--- a/zksk/base.py
+++ b/zksk/base.py
@@ -14,6 +14,8 @@ from hashlib import sha256
 from collections import defaultdict
 import attr
 
+# Importing the pairings registers the coders of their points, which proofs may hold.
+import zksk.pairings
 from zksk.utils import get_random_num
 from zksk.consts import CHALLENGE_LENGTH
 from zksk.exceptions import ValidationError
-- 
2.43.0


From fca61e77a0b0863f3f76bab979425e73e6ee46a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:10 +0000
Subject: [PATCH 31/31] fix: do not keep the statements of an earlier session
 when a precommitment is missing

---
 zksk/composition.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zksk/composition.py b/zksk/composition.py
index 8e258e4..1a5b021 100644
--- a/zksk/composition.py
+++ b/zksk/composition.py
@@ -753,7 +753,7 @@ class OrVerifier(Verifier):
             precommitment: A list of all required precommitments, ordered.
         """
         if precommitment is None:
-            return
+            precommitment = [None] * len(self.subs)
         for index, sub in enumerate(self.subs):
             sub.process_precommitment(precommitment[index])
 
@@ -1023,6 +1023,6 @@ class AndVerifier(Verifier):
         Distribute the list of precommitments to the subverifiers.
         """
         if precommitment is None:
-            return
+            precommitment = [None] * len(self.subs)
         for index, sub in enumerate(self.subs):
             sub.process_precommitment(precommitment[index])
-- 
2.43.0

