/-
The lemmas on texts of entities that pyvc uses as axioms (theory.py: pieces_of, pieces_of_seq; store.py: row_axioms; sql.py: row_start_lemmas).
A text is a list of code points; TextOK (TEXTOK) are the texts of well-formed entities.
-/
import Mathlib.Tactic

namespace Text

abbrev Str := List ℕ

variable (ws : ℕ → Bool)       -- white space: any set of code points with the blank and without the parentheses

/-- s.split() -/
def wsplit (s : Str) : List Str := (s.splitOnP ws).filter (fun p => !p.isEmpty)

/-- " ".join(q) -/
def join : List Str → Str
  | [] => []
  | [x] => x
  | x :: y :: r => x ++ 32 :: join (y :: r)

/-- OPN: leading opening parentheses; CLS: trailing closing ones -/
def opn (p : Str) : ℕ := (p.takeWhile (· == 40)).length
def cls (p : Str) : ℕ := (p.reverse.takeWhile (· == 41)).length

/-- plain (theory.py), and not empty -/
def Atom (a : Str) : Prop := a ≠ [] ∧ ∀ c ∈ a, ws c = false ∧ c ≠ 40 ∧ c ≠ 41

/-- The texts of well-formed entities: atoms, and edges of two or more. -/
inductive TextOK : Str → Prop
  | atom (a) : Atom ws a → TextOK a
  | edge (xs : List Str) : 2 ≤ xs.length → (∀ x ∈ xs, TextOK x) → TextOK (40 :: join xs ++ [41])

/-- Pieces: opening parentheses, an atom, closing parentheses. -/
structure Piece where
  o : ℕ
  a : Str
  c : ℕ

def Piece.text (p : Piece) : Str := List.replicate p.o 40 ++ p.a ++ List.replicate p.c 41

def opening : List Piece → List Piece
  | [] => []
  | p :: r => { p with o := p.o + 1 } :: r

def closing : List Piece → List Piece
  | [] => []
  | [p] => [{ p with c := p.c + 1 }]
  | p :: q :: r => p :: closing (q :: r)

def depth : List Piece → ℤ
  | [] => 0
  | p :: r => (p.o : ℤ) - p.c + depth r

/-- The pieces of a text. -/
structure Good (l : List Piece) : Prop where
  pos : l ≠ []
  atoms : ∀ p ∈ l, Atom ws p.a
  zero : depth l = 0
  inner : ∀ m, 0 < m → m < l.length → 0 < depth (l.take m)

theorem depth_append (a b : List Piece) : depth (a ++ b) = depth a + depth b := by
  induction a with
  | nil => simp [depth]
  | cons p r ih => simp [depth, ih]; ring

theorem join_append {a b : List Str} (ha : a ≠ []) (hb : b ≠ []) : join (a ++ b) = join a ++ 32 :: join b := by
  induction a with
  | nil => exact absurd rfl ha
  | cons x r ih =>
    cases r with
    | nil => cases b with
      | nil => exact absurd rfl hb
      | cons y s => simp [join]
    | cons y s =>
      have := ih (by simp)
      simp only [List.cons_append, join] at this ⊢
      rw [this]; simp

theorem join_flatten {ls : List (List Str)} (h : ∀ l ∈ ls, l ≠ []) : join ls.flatten = join (ls.map join) := by
  induction ls with
  | nil => rfl
  | cons x r ih =>
    have ihr := ih (fun l hl => h l (by simp [hl]))
    cases r with
    | nil => simp [join]
    | cons y s =>
      have hy : (y :: s).flatten ≠ [] := by
        have := h y (by simp)
        cases y with
        | nil => exact absurd rfl this
        | cons => simp
      rw [List.flatten_cons, join_append (h x (by simp)) hy, ihr]
      simp [join]

theorem opening_text {l : List Piece} (h : l ≠ []) : join ((opening l).map Piece.text) = 40 :: join (l.map Piece.text) := by
  cases l with
  | nil => exact absurd rfl h
  | cons p r =>
    cases r with
    | nil => simp [opening, join, Piece.text, List.replicate_succ]
    | cons q s => simp [opening, join, Piece.text, List.replicate_succ]

theorem closing_text {l : List Piece} (h : l ≠ []) : join ((closing l).map Piece.text) = join (l.map Piece.text) ++ [41] := by
  induction l with
  | nil => exact absurd rfl h
  | cons p r ih =>
    cases r with
    | nil => simp [closing, join, Piece.text, List.replicate_succ']
    | cons q s =>
      have := ih (by simp)
      cases s with
      | nil => simp [closing, join] at this ⊢; simp [this]
      | cons t u => simp [closing, join] at this ⊢; simp [this]

theorem closing_length (l : List Piece) : (closing l).length = l.length := by
  induction l with
  | nil => rfl
  | cons p r ih => cases r with
    | nil => rfl
    | cons q s => simpa [closing] using ih

theorem opening_length (l : List Piece) : (opening l).length = l.length := by cases l <;> rfl

theorem opening_atoms {l : List Piece} (h : ∀ p ∈ l, Atom ws p.a) : ∀ p ∈ opening l, Atom ws p.a := by
  cases l with
  | nil => exact h
  | cons p r =>
    intro q hq
    rcases List.mem_cons.1 hq with rfl | hq
    · exact h p (by simp)
    · exact h q (by simp [hq])

theorem closing_atoms {l : List Piece} (h : ∀ p ∈ l, Atom ws p.a) : ∀ p ∈ closing l, Atom ws p.a := by
  induction l with
  | nil => exact h
  | cons p r ih =>
    cases r with
    | nil =>
      intro q hq
      rcases List.mem_cons.1 hq with rfl | hq
      · exact h p (by simp)
      · simp at hq
    | cons q s =>
      intro x hx
      rcases List.mem_cons.1 hx with rfl | hx
      · exact h _ (by simp)
      · exact ih (fun y hy => h y (by simp [hy])) x hx

theorem depth_opening {l : List Piece} (h : l ≠ []) : depth (opening l) = depth l + 1 := by
  cases l with
  | nil => exact absurd rfl h
  | cons p r => simp [opening, depth]; ring

theorem depth_closing {l : List Piece} (h : l ≠ []) : depth (closing l) = depth l - 1 := by
  induction l with
  | nil => exact absurd rfl h
  | cons p r ih => cases r with
    | nil => simp [closing, depth]; ring
    | cons q s =>
      have := ih (by simp)
      simp [closing, depth] at this ⊢; linarith

theorem take_opening (l : List Piece) (m : ℕ) : (opening l).take m = opening (l.take m) := by
  cases l with
  | nil => simp [opening]
  | cons p r => cases m <;> simp [opening]

theorem take_closing (l : List Piece) (m : ℕ) (h : m < l.length) : (closing l).take m = l.take m := by
  induction l generalizing m with
  | nil => simp at h
  | cons p r ih => cases r with
    | nil => simp at h; simp [h]
    | cons q s => cases m with
      | zero => simp
      | succ m => simp only [closing, List.take_succ_cons]; rw [ih m (by simpa using h)]

/-- Joined good lists: depth zero at the end, never negative before. -/
theorem flatten_depth {ls : List (List Piece)} (h : ∀ l ∈ ls, Good ws l) :
    depth ls.flatten = 0 ∧ ∀ m, 0 ≤ depth (ls.flatten.take m) := by
  induction ls with
  | nil => simp [depth]
  | cons x r ih =>
    have gx := h x (by simp)
    obtain ⟨z, i⟩ := ih (fun l hl => h l (by simp [hl]))
    refine ⟨by rw [List.flatten_cons, depth_append, gx.zero, z]; rfl, fun m => ?_⟩
    rw [List.flatten_cons, List.take_append, depth_append]
    rcases Nat.lt_or_ge m x.length with hm | hm
    · have : m - x.length = 0 := by omega
      rw [this]
      rcases Nat.eq_zero_or_pos m with rfl | hp
      · simp [depth]
      · have := gx.inner m hp hm
        simp [depth]; omega
    · rw [List.take_of_length_le hm, gx.zero]
      have := i (m - x.length)
      omega

theorem good_atom {a : Str} (h : Atom ws a) : Good ws [⟨0, a, 0⟩] :=
  ⟨by simp, by simpa using h, by simp [depth], by intro m h1 h2; simp at h2; omega⟩

theorem good_edge {ls : List (List Piece)} (hn : ls ≠ []) (h : ∀ l ∈ ls, Good ws l) : Good ws (opening (closing ls.flatten)) := by
  have hf : ls.flatten ≠ [] := by
    cases ls with
    | nil => exact absurd rfl hn
    | cons x r =>
      have := (h x (by simp)).pos
      cases x with
      | nil => exact absurd rfl this
      | cons => simp
  have hc : closing ls.flatten ≠ [] := by
    intro e; have := closing_length ls.flatten; rw [e] at this; exact hf (List.eq_nil_of_length_eq_zero this.symm)
  obtain ⟨z, i⟩ := flatten_depth ws h
  refine ⟨?_, ?_, ?_, ?_⟩
  · intro e; have := opening_length (closing ls.flatten); rw [e] at this; exact hc (List.eq_nil_of_length_eq_zero this.symm)
  · refine opening_atoms ws (closing_atoms ws ?_)
    intro p hp
    obtain ⟨l, hl, hpl⟩ := List.mem_flatten.1 hp
    exact (h l hl).atoms p hpl
  · rw [depth_opening hc, depth_closing hf, z]; rfl
  · intro m h1 h2
    rw [opening_length, closing_length] at h2
    rw [take_opening, take_closing _ _ h2]
    have hm : ls.flatten.take m ≠ [] := by
      intro e; have := congrArg List.length e; simp only [List.length_take, List.length_nil] at this; omega
    rw [depth_opening hm]
    have := i m
    omega

/-- Every text of an entity is its pieces, joined. -/
theorem pieces {x : Str} (h : TextOK ws x) : ∃ l, Good ws l ∧ x = join (l.map Piece.text) := by
  induction h with
  | atom a ha => exact ⟨[⟨0, a, 0⟩], good_atom ws ha, by simp [join, Piece.text]⟩
  | edge xs hl _ ih =>
    choose! f hf using ih
    refine ⟨opening (closing (xs.map f).flatten), good_edge ws ?_ ?_, ?_⟩
    · intro e; simp at e; simp [e] at hl
    · intro l hl'
      obtain ⟨x, hx, rfl⟩ := List.mem_map.1 hl'
      exact (hf x hx).1
    · have hn : ∀ l ∈ (xs.map f), l ≠ [] := by
        intro l hl'
        obtain ⟨x, hx, rfl⟩ := List.mem_map.1 hl'
        exact (hf x hx).1.pos
      have hfl : (xs.map f).flatten ≠ [] := by
        cases xs with
        | nil => simp at hl
        | cons y r =>
          have := hn (f y) (by simp)
          cases hfy : f y with
          | nil => exact absurd hfy this
          | cons => simp [hfy]
      have hc : closing (xs.map f).flatten ≠ [] := by
        intro e; have := closing_length (xs.map f).flatten; rw [e] at this; exact hfl (List.eq_nil_of_length_eq_zero this.symm)
      rw [opening_text hc, closing_text hfl, List.map_flatten, join_flatten]
      · have : ((xs.map f).map (List.map Piece.text)).map join = xs := by
          rw [List.map_map, List.map_map]
          conv_rhs => rw [← List.map_id xs]
          exact List.map_congr_left (fun x hx => ((hf x hx).2).symm)
        rw [this]; rfl
      · intro l hl'
        obtain ⟨y, hy, rfl⟩ := List.mem_map.1 hl'
        intro e
        exact hn y hy (List.map_eq_nil_iff.1 e)

section split
variable (hb : ws 32 = true) (h40 : ws 40 = false) (h41 : ws 41 = false)
include h40 h41

theorem text_solid {p : Piece} (h : Atom ws p.a) : p.text ≠ [] ∧ ∀ c ∈ p.text, ws c = false := by
  refine ⟨?_, ?_⟩
  · intro e; have := h.1; simp [Piece.text] at e; exact this e.2.1
  · intro c hc
    simp only [Piece.text, List.mem_append, List.mem_replicate] at hc
    rcases hc with (⟨_, rfl⟩ | hc) | ⟨_, rfl⟩
    · exact h40
    · exact (h.2 c hc).1
    · exact h41

omit h40 h41 in
theorem wsplit_single {p : Str} (h : p ≠ []) (h2 : ∀ c ∈ p, ws c = false) : wsplit ws p = [p] := by
  unfold wsplit
  rw [List.splitOnP_eq_singleton]
  · simp [h]
  · intro x hx; simp [h2 x hx]

omit h40 h41 in
include hb in
theorem wsplit_first {p r : Str} (h : p ≠ []) (h2 : ∀ c ∈ p, ws c = false) : wsplit ws (p ++ 32 :: r) = p :: wsplit ws r := by
  unfold wsplit
  rw [List.splitOnP_append_cons_of_forall_mem]
  · simp [h]
  · intro x hx; simp [h2 x hx]
  · exact hb

omit h40 h41 in
include hb in
theorem wsplit_join {l : List Str} (h : ∀ p ∈ l, p ≠ [] ∧ ∀ c ∈ p, ws c = false) : wsplit ws (join l) = l := by
  induction l with
  | nil => simp [join, wsplit]
  | cons p r ih =>
    have ihr := ih (fun q hq => h q (by simp [hq]))
    obtain ⟨h1, h2⟩ := h p (by simp)
    cases r with
    | nil => exact wsplit_single ws h1 h2
    | cons q s => rw [join, wsplit_first ws hb h1 h2, ihr]

omit h40 h41 in
include hb in
/-- Text after joined pieces and a blank. -/
theorem wsplit_join_more {l : List Str} (h0 : l ≠ []) (h : ∀ p ∈ l, p ≠ [] ∧ ∀ c ∈ p, ws c = false) (r : Str) :
    wsplit ws (join l ++ 32 :: r) = l ++ wsplit ws r := by
  induction l with
  | nil => exact absurd rfl h0
  | cons p s ih =>
    obtain ⟨h1, h2⟩ := h p (by simp)
    cases s with
    | nil => simpa [join] using wsplit_first ws hb (r := r) h1 h2
    | cons q t =>
      have := ih (by simp) (fun q hq => h q (by simp [hq]))
      simp only [join, List.append_assoc, List.cons_append] at this ⊢
      rw [wsplit_first ws hb h1 h2, this]

omit h40 h41 in
theorem takeWhile_rep (n : ℕ) (a : ℕ) (r : Str) (h : ∀ c, r.head? = some c → c ≠ a) :
    ((List.replicate n a ++ r).takeWhile (· == a)).length = n := by
  induction n with
  | zero =>
    cases r with
    | nil => simp
    | cons c s => have := h c rfl; simp [List.takeWhile_cons, this]
  | succ n ih => simpa [List.replicate_succ, List.takeWhile_cons] using ih

omit h40 h41 in
theorem opn_text {p : Piece} (h : Atom ws p.a) : opn p.text = p.o := by
  unfold opn Piece.text
  rw [List.append_assoc]
  apply takeWhile_rep
  intro c hc
  cases ha : p.a with
  | nil => exact absurd ha h.1
  | cons d s =>
    rw [ha] at hc; simp at hc
    subst hc
    exact (h.2 _ (by simp [ha])).2.1

omit h40 h41 in
theorem cls_text {p : Piece} (h : Atom ws p.a) : cls p.text = p.c := by
  unfold cls Piece.text
  rw [List.reverse_append, List.reverse_replicate, List.reverse_append]
  apply takeWhile_rep
  intro c hc
  cases ha : p.a.reverse with
  | nil => exact absurd (List.reverse_eq_nil_iff.1 ha) h.1
  | cons d s =>
    rw [ha] at hc; simp at hc
    subst hc
    have : d ∈ p.a := by rw [← List.mem_reverse, ha]; simp
    exact (h.2 _ this).2.2

/-- PIECE(x, m), NP(x), DEPTH(x, m), PREF(x, m) -/
def np (x : Str) : ℕ := (wsplit ws x).length
def piece (x : Str) (m : ℕ) : Str := (wsplit ws x).getD m []
def sdepth : List Str → ℤ
  | [] => 0
  | p :: r => (opn p : ℤ) - cls p + sdepth r
def dep (x : Str) (m : ℕ) : ℤ := sdepth ((wsplit ws x).take m)
def pref (x : Str) (m : ℕ) : Str := join ((wsplit ws x).take m)

omit h40 h41 in
theorem sdepth_text {l : List Piece} (h : ∀ p ∈ l, Atom ws p.a) : sdepth (l.map Piece.text) = depth l := by
  induction l with
  | nil => rfl
  | cons p r ih =>
    simp only [List.map_cons, sdepth, depth]
    rw [ih (fun q hq => h q (by simp [hq])), opn_text ws (h p (by simp)), cls_text ws (h p (by simp))]

omit h40 h41 in
theorem sdepth_append (a b : List Str) : sdepth (a ++ b) = sdepth a + sdepth b := by
  induction a with
  | nil => simp [sdepth]
  | cons p r ih => simp [sdepth, ih]; ring

include hb in
theorem wsplit_pieces {x : Str} (h : TextOK ws x) : ∃ l, Good ws l ∧ x = join (l.map Piece.text) ∧ wsplit ws x = l.map Piece.text := by
  obtain ⟨l, g, e⟩ := pieces ws h
  refine ⟨l, g, e, ?_⟩
  rw [e]
  apply wsplit_join ws hb
  intro p hp
  obtain ⟨q, hq, rfl⟩ := List.mem_map.1 hp
  exact text_solid ws h40 h41 (g.atoms q hq)

include hb in
/-- The lemma of theory.pieces_of. -/
theorem pieces_of {x : Str} (h : TextOK ws x) :
    1 ≤ np ws x ∧ dep ws x 0 = 0 ∧ dep ws x (np ws x) = 0 ∧ pref ws x (np ws x) = x
    ∧ (∀ m, 0 < m → m < np ws x → 0 < dep ws x m)
    ∧ (∀ m, m < np ws x → dep ws x (m + 1) = dep ws x m + opn (piece ws x m) - cls (piece ws x m)
        ∧ (∃ c ∈ piece ws x m, c ≠ 40 ∧ c ≠ 41))
    ∧ pref ws x 1 = piece ws x 0
    ∧ (∀ m, 1 ≤ m → m < np ws x → pref ws x (m + 1) = pref ws x m ++ 32 :: piece ws x m) := by
  obtain ⟨l, g, e, w⟩ := wsplit_pieces ws hb h40 h41 h
  have len : np ws x = l.length := by simp [np, w]
  have dp : ∀ m, dep ws x m = depth (l.take m) := by
    intro m
    rw [dep, w, ← List.map_take, sdepth_text ws (fun p hp => g.atoms p (List.mem_of_mem_take hp))]
  have nx : ∀ m, m < np ws x → (wsplit ws x).take (m + 1) = (wsplit ws x).take m ++ [piece ws x m] := by
    intro m hm
    rw [List.take_add_one, piece]
    have : m < (wsplit ws x).length := hm
    rw [List.getD_eq_getElem?_getD, List.getElem?_eq_getElem this]; rfl
  have lp : 0 < l.length := List.length_pos_iff.2 g.pos
  refine ⟨by omega, ?_, ?_, ?_, ?_, ?_, ?_, ?_⟩
  · simp [dep, sdepth]
  · rw [dp, len, List.take_length, g.zero]
  · rw [pref, np, List.take_length, w, ← e]
  · intro m h1 h2
    rw [dp]; exact g.inner m h1 (by omega)
  · intro m hm
    refine ⟨?_, ?_⟩
    · rw [dep, nx m hm, sdepth_append, dep]; simp [sdepth]; ring
    · have hm' : m < (wsplit ws x).length := hm
      have : piece ws x m ∈ wsplit ws x := by
        rw [piece, List.getD_eq_getElem?_getD, List.getElem?_eq_getElem hm']; exact List.getElem_mem _
      rw [w] at this
      obtain ⟨p, hp, hpt⟩ := List.mem_map.1 this
      have a := g.atoms p hp
      obtain ⟨c, hc⟩ := List.exists_mem_of_ne_nil _ a.1
      exact ⟨c, by rw [← hpt]; simp [Piece.text, hc], (a.2 c hc).2⟩
  · have h0 : 0 < np ws x := by omega
    rw [pref, nx 0 h0]; simp [join]
  · intro m h1 h2
    rw [pref, nx m h2, join_append _ (by simp)]
    · simp [pref, join]
    · intro c; have := congrArg List.length c; simp only [List.length_take, List.length_nil] at this
      have : (wsplit ws x).length = np ws x := rfl
      omega

/-- GOODQ -/
def GoodQ (q : List Str) : Prop := ∀ x ∈ q, TextOK ws x

/-- START(q, k) -/
def start (q : List Str) (k : ℕ) : ℕ := ((q.take k).map (np ws)).sum

include hb in
theorem wsplit_seq {q : List Str} (h : GoodQ ws q) : wsplit ws (join q) = (q.map (wsplit ws)).flatten := by
  induction q with
  | nil => simp [join, wsplit]
  | cons x r ih =>
    have ihr := ih (fun y hy => h y (by simp [hy]))
    obtain ⟨l, g, e, w⟩ := wsplit_pieces ws hb h40 h41 (h x (by simp))
    cases r with
    | nil => simp [join]
    | cons y s =>
      have : wsplit ws (x ++ 32 :: join (y :: s)) = l.map Piece.text ++ wsplit ws (join (y :: s)) := by
        conv_lhs => rw [e]
        apply wsplit_join_more ws hb
        · intro c; exact g.pos (List.map_eq_nil_iff.1 c)
        · intro p hp
          obtain ⟨p', hp', rfl⟩ := List.mem_map.1 hp
          exact text_solid ws h40 h41 (g.atoms p' hp')
      rw [join, this, ihr, ← w]; simp

include hb in
theorem seq_length {q : List Str} (h : GoodQ ws q) : (wsplit ws (join q)).length = start ws q q.length := by
  rw [wsplit_seq ws hb h40 h41 h, start, List.take_length, List.length_flatten, List.map_map]; rfl

omit h40 h41 in
theorem start_succ (q : List Str) (k : ℕ) (hk : k < q.length) : start ws q (k + 1) = start ws q k + np ws (q[k]) := by
  unfold start
  rw [List.take_add_one, List.getElem?_eq_getElem hk, List.map_append, List.sum_append]; simp

omit h40 h41 in
theorem flatten_get {α} (ls : List (List α)) (k : ℕ) (hk : k < ls.length) (m : ℕ) (hm : m < ls[k].length) :
    ls.flatten[((ls.take k).map List.length).sum + m]? = some (ls[k][m]) := by
  induction ls generalizing k with
  | nil => simp at hk
  | cons x r ih =>
    cases k with
    | zero =>
      simp only [List.getElem_cons_zero] at hm
      simp [List.getElem?_append_left hm]
    | succ k =>
      simp only [List.getElem_cons_succ] at hm
      have := ih k (by simpa using hk) hm
      simp only [List.take_succ_cons, List.map_cons, List.sum_cons, List.flatten_cons, List.getElem_cons_succ]
      rw [List.getElem?_append_right (by omega)]
      rw [← this]; congr 1; omega

include hb in
theorem seq_piece {q : List Str} (h : GoodQ ws q) (k : ℕ) (hk : k < q.length) (m : ℕ) (hm : m < np ws (q[k])) :
    piece ws (join q) (start ws q k + m) = piece ws (q[k]) m := by
  have hk' : k < (q.map (wsplit ws)).length := by simpa using hk
  have hm' : m < (q.map (wsplit ws))[k].length := by simpa [np] using hm
  have := flatten_get (q.map (wsplit ws)) k hk' m hm'
  have s : start ws q k = (((q.map (wsplit ws)).take k).map List.length).sum := by
    rw [start, ← List.map_take, List.map_map]; rfl
  have hm2 : m < (wsplit ws q[k]).length := hm
  rw [piece, wsplit_seq ws hb h40 h41 h, s, List.getD_eq_getElem?_getD, this, piece, List.getD_eq_getElem?_getD, List.getElem?_eq_getElem hm2]
  simp

/-- OWN(q, i), as its axioms define it. -/
def own (q : List Str) : ℕ → ℕ
  | 0 => 0
  | i + 1 => if own q i < q.length ∧ i + 1 = start ws q (own q i + 1) then own q i + 1 else own q i

include hb in
theorem np_pos {x : Str} (h : TextOK ws x) : 1 ≤ np ws x := (pieces_of ws hb h40 h41 h).1

include hb in
/-- The element to which piece i belongs. -/
theorem own_spec {q : List Str} (h : GoodQ ws q) (i : ℕ) (hi : i ≤ start ws q q.length) :
    own ws q i ≤ q.length ∧ start ws q (own ws q i) ≤ i ∧ (own ws q i = q.length → i = start ws q q.length)
    ∧ (own ws q i < q.length → i < start ws q (own ws q i + 1)) := by
  induction i with
  | zero =>
    refine ⟨Nat.zero_le _, by simp [own, start], ?_, ?_⟩
    · intro e; simp only [own] at e; rw [← e]; simp [start]
    · intro e; simp only [own] at e ⊢
      rw [start_succ ws q 0 e]
      have := np_pos ws hb h40 h41 (h q[0] (List.getElem_mem _))
      omega
  | succ i ih =>
    obtain ⟨a, b, c, d⟩ := ih (by omega)
    have lt : own ws q i < q.length := by
      rcases Nat.lt_or_ge (own ws q i) q.length with x | x
      · exact x
      · have := c (by omega); omega
    have d := d lt
    by_cases e : i + 1 = start ws q (own ws q i + 1)
    · have o : own ws q (i + 1) = own ws q i + 1 := by rw [own, if_pos ⟨lt, e⟩]
      rw [o]
      refine ⟨by omega, by omega, ?_, ?_⟩
      · intro x; rw [e, x]
      · intro x
        rw [start_succ ws q _ x]
        have := np_pos ws hb h40 h41 (h q[own ws q i + 1] (List.getElem_mem _))
        omega
    · have o : own ws q (i + 1) = own ws q i := by rw [own, if_neg (fun x => e x.2)]
      rw [o]
      exact ⟨by omega, by omega, fun x => by omega, fun _ => by omega⟩

include hb in
/-- The lemma of theory.pieces_of_seq, for piece i. -/
theorem pieces_of_seq {q : List Str} (h : GoodQ ws q) (i : ℕ) (hi : i ≤ start ws q q.length) :
    (wsplit ws (join q)).length = start ws q q.length ∧ own ws q i ≤ q.length ∧ start ws q 0 = 0 ∧ start ws q (own ws q i) ≤ i
    ∧ (own ws q i = q.length → i = start ws q q.length)
    ∧ ∀ lt : own ws q i < q.length,
        start ws q (own ws q i + 1) = start ws q (own ws q i) + np ws (q[own ws q i]) ∧ i < start ws q (own ws q i + 1)
        ∧ i < start ws q q.length
        ∧ piece ws (join q) i = piece ws (q[own ws q i]) (i - start ws q (own ws q i))
        ∧ TextOK ws (q[own ws q i])
        ∧ own ws q (i + 1) = if i + 1 = start ws q (own ws q i + 1) then own ws q i + 1 else own ws q i := by
  obtain ⟨a, b, c, d⟩ := own_spec ws hb h40 h41 h i hi
  refine ⟨seq_length ws hb h40 h41 h, a, by simp [start], b, c, fun lt => ?_⟩
  have s := start_succ ws q _ lt
  have d := d lt
  refine ⟨s, d, ?_, ?_, h _ (List.getElem_mem _), ?_⟩
  · have mono : start ws q (own ws q i + 1) ≤ start ws q q.length := by
      unfold start
      rw [List.take_length]
      exact ((List.take_sublist _ q).map _).sum_le_sum (fun _ _ => Nat.zero_le _)
    omega
  · have := seq_piece ws hb h40 h41 h (own ws q i) lt (i - start ws q (own ws q i)) (by omega)
    rw [← this]; congr 1; omega
  · rw [own]; simp [lt]

/- Rows -/

omit h40 h41 in
/-- store.row_axioms: one more text. -/
theorem join_more (q : List Str) (t : Str) (h : q ≠ []) : join (q ++ [t]) = join q ++ 32 :: t := by
  rw [join_append h (by simp)]; rfl

omit h40 h41 in
/-- sql.row_start_lemmas: f goes on after q (List.IsPrefix: STARTS). -/
theorem starts_join (q r : List Str) (h : q ≠ []) (hr : r ≠ []) : (join q ++ [32]) <+: join (q ++ r) := by
  rw [join_append h hr]
  exact ⟨join r, by simp⟩

include hb in
/-- A text of an entity and a blank start a row exactly if the first text is that one. -/
theorem starts_first {f : List Str} (h : GoodQ ws f) (h2 : 2 ≤ f.length) {t : Str} (ht : TextOK ws t) :
    (t ++ [32]) <+: join f ↔ f.head? = some t := by
  match f, h2 with
  | x :: y :: r, _ =>
    constructor
    · rintro ⟨s, hs⟩
      obtain ⟨l, g, e, w⟩ := wsplit_pieces ws hb h40 h41 (h x (by simp))
      obtain ⟨l', g', e', w'⟩ := wsplit_pieces ws hb h40 h41 ht
      have solid : ∀ {l : List Piece}, Good ws l → ∀ p ∈ l.map Piece.text, p ≠ [] ∧ ∀ c ∈ p, ws c = false := by
        intro l g p hp
        obtain ⟨p', hp', rfl⟩ := List.mem_map.1 hp
        exact text_solid ws h40 h41 (g.atoms p' hp')
      have nn : ∀ {l : List Piece}, Good ws l → l.map Piece.text ≠ [] := fun g c => g.pos (List.map_eq_nil_iff.1 c)
      have a1 := wsplit_join_more ws hb (nn g) (solid g) (join (y :: r))
      have a2 := wsplit_join_more ws hb (nn g') (solid g') s
      rw [← e] at a1
      rw [← e'] at a2
      have eq : l.map Piece.text ++ wsplit ws (join (y :: r)) = l'.map Piece.text ++ wsplit ws s := by
        rw [← a1, ← a2]
        simp only [List.append_assoc, List.cons_append, List.nil_append, join] at hs
        rw [hs]
      -- one list of pieces is the start of the other, depth zero is reached only at the end
      have key : ∀ {l l' : List Piece} {a b : List Str}, Good ws l → Good ws l' → l.map Piece.text ++ a = l'.map Piece.text ++ b →
          l.length ≤ l'.length → l.length = l'.length := by
        intro l l' a b g g' eq le
        by_contra ne
        have lt : l.length < l'.length := by omega
        have t1 := congrArg (List.take l.length) eq
        rw [List.take_append_of_le_length (by simp), List.take_append_of_le_length (by simp; omega), List.take_of_length_le (by simp), ← List.map_take] at t1
        have := congrArg sdepth t1
        rw [sdepth_text ws g.atoms, sdepth_text ws (fun p hp => g'.atoms p (List.mem_of_mem_take hp)), g.zero] at this
        have := g'.inner l.length (List.length_pos_iff.2 g.pos) lt
        omega
      have le : l.length = l'.length := by
        rcases Nat.le_total l.length l'.length with c | c
        · exact key g g' eq c
        · exact (key g' g eq.symm c).symm
      have same : l.map Piece.text = l'.map Piece.text := List.append_inj_left eq (by simpa using le)
      simp [e, e', same]
    · intro hx
      simp at hx
      subst hx
      exact ⟨join (y :: r), by simp [join]⟩

end split
end Text

#print axioms Text.pieces_of
#print axioms Text.pieces_of_seq
#print axioms Text.join_more
#print axioms Text.starts_join
#print axioms Text.starts_first
