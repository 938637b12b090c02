------------------------------ MODULE KeyMaps ------------------------------
(* The layouts of the built-in checkpoint formats, and what converting one into another has to do with each weight. A key is the
   sequence of its parts. Parts(t) are the source weights that target t is made of, and How(t) what is made of them; both are written
   from the architecture (levels, blocks and layers), not from renaming tables.
   The configs (keys and shapes, of the real library) are read from a file; a conversion takes the targets one after the other. *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC, IOUtils, Json, CSV
CONSTANTS Conversions, MaxDropped
Data == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES pc, conv, at, fed, twice, bad, lost, dropped, near, out
vars == <<pc, conv, at, fed, twice, bad, lost, dropped, near, out>>

Numbers == 0..99
Num == [s \in {ToString(i) : i \in Numbers} |-> CHOOSE i \in Numbers : ToString(i) = s]
From(t, i) == SubSeq(t, i, Len(t))
Starts(t, p) == Len(t) >= Len(p) /\ SubSeq(t, 1, Len(p)) = p
S(i) == ToString(i)

\* ---- the denoiser: Downs levels of Layers residual blocks each, then a middle, then the levels in reverse with one more block
Layers == 2
Block(t) == CASE Starts(t, <<"in_layers", "0">>) -> <<"norm1">> \o From(t, 3)
              [] Starts(t, <<"in_layers", "2">>) -> <<"conv1">> \o From(t, 3)
              [] Starts(t, <<"emb_layers", "1">>) -> <<"time_emb_proj">> \o From(t, 3)
              [] Starts(t, <<"out_layers", "0">>) -> <<"norm2">> \o From(t, 3)
              [] Starts(t, <<"out_layers", "3">>) -> <<"conv2">> \o From(t, 3)
              [] Starts(t, <<"skip_connection">>) -> <<"conv_shortcut">> \o From(t, 2)
              [] OTHER -> t
IsBlock(t) == t[1] \in {"in_layers", "emb_layers", "out_layers", "skip_connection"}
Input(k, t) == LET level == (k - 1) \div (Layers + 1) j == (k - 1) % (Layers + 1) IN
  IF k = 0 THEN <<"conv_in">> \o From(t, 2)
  ELSE IF j = Layers THEN <<"down_blocks", S(level), "downsamplers", "0", "conv">> \o From(t, 3)
  ELSE IF IsBlock(From(t, 2)) THEN <<"down_blocks", S(level), "resnets", S(j)>> \o Block(From(t, 2))
  ELSE <<"down_blocks", S(level), "attentions", S(j)>> \o From(t, 2)
Output(k, t) == LET level == k \div (Layers + 1) j == k % (Layers + 1) IN
  IF IsBlock(From(t, 2)) THEN <<"up_blocks", S(level), "resnets", S(j)>> \o Block(From(t, 2))
  ELSE IF t[2] = "conv" THEN <<"up_blocks", S(level), "upsamplers", "0">> \o From(t, 2)
  ELSE <<"up_blocks", S(level), "attentions", S(j)>> \o From(t, 2)
Linear(s) == IF s = "0" THEN "linear_1" ELSE "linear_2"
Denoiser(t) == CASE t[1] = "time_embed" -> <<"time_embedding", Linear(t[2])>> \o From(t, 3)
                 [] t[1] = "label_emb" -> <<"add_embedding", Linear(t[3])>> \o From(t, 4)
                 [] t[1] = "input_blocks" -> Input(Num[t[2]], From(t, 3))
                 [] t[1] = "output_blocks" -> Output(Num[t[2]], From(t, 3))
                 [] t[1] = "middle_block" -> (IF t[2] = "1" THEN <<"mid_block", "attentions", "0">> \o From(t, 3)
                                              ELSE <<"mid_block", "resnets", IF t[2] = "0" THEN "0" ELSE "1">> \o Block(From(t, 3)))
                 [] t[1] = "out" -> <<IF t[2] = "0" THEN "conv_norm_out" ELSE "conv_out">> \o From(t, 3)
                 [] OTHER -> t
\* ---- the image encoder and decoder: the decoder counts its levels the other way around
VaeLevels == 4
Short(t) == IF t[1] = "nin_shortcut" THEN <<"conv_shortcut">> \o From(t, 2) ELSE t
VaeMid(t) == CASE t[1] = "block_1" -> <<"resnets", "0">> \o Short(From(t, 2))
               [] t[1] = "block_2" -> <<"resnets", "1">> \o Short(From(t, 2))
               [] Starts(t, <<"attn_1", "norm">>) -> <<"attentions", "0", "group_norm">> \o From(t, 3)
               [] Starts(t, <<"attn_1", "proj_out">>) -> <<"attentions", "0", "to_out", "0">> \o From(t, 3)
               [] OTHER -> <<"attentions", "0", "to_" \o t[2]>> \o From(t, 3)
Side(t) == LET level == Num[t[2]] IN
  CASE t[1] = "mid" -> <<"mid_block">> \o VaeMid(From(t, 2))
    [] t[1] = "norm_out" -> <<"conv_norm_out">> \o From(t, 2)
    [] t[1] = "down" -> <<"down_blocks", S(level)>> \o (IF t[3] = "block" THEN <<"resnets", t[4]>> \o Short(From(t, 5)) ELSE <<"downsamplers", "0">> \o From(t, 4))
    [] t[1] = "up" -> <<"up_blocks", S(VaeLevels - 1 - level)>> \o (IF t[3] = "block" THEN <<"resnets", t[4]>> \o Short(From(t, 5)) ELSE <<"upsamplers", "0">> \o From(t, 4))
    [] OTHER -> t
Vae(t) == IF t[1] \in {"encoder", "decoder"} THEN <<t[1]>> \o Side(From(t, 2)) ELSE t
\* ---- the second text encoder: projections of queries, keys and values are fused in the original layout
TextBlock(t) == CASE t[1] = "ln_1" -> <<"layer_norm1">> \o From(t, 2)
                  [] t[1] = "ln_2" -> <<"layer_norm2">> \o From(t, 2)
                  [] Starts(t, <<"mlp", "c_fc">>) -> <<"mlp", "fc1">> \o From(t, 3)
                  [] Starts(t, <<"mlp", "c_proj">>) -> <<"mlp", "fc2">> \o From(t, 3)
                  [] OTHER -> <<"self_attn">> \o From(t, 2)
Text(t) == CASE Starts(t, <<"transformer", "resblocks">>) -> <<"text_model", "encoder", "layers", t[3]>> \o TextBlock(From(t, 4))
             [] t[1] = "token_embedding" -> <<"text_model", "embeddings">> \o t
             [] t[1] = "positional_embedding" -> <<"text_model", "embeddings", "position_embedding", "weight">>
             [] t[1] = "ln_final" -> <<"text_model", "final_layer_norm">> \o From(t, 2)
             [] t[1] = "text_projection" -> <<"text_projection", "weight">>
             [] OTHER -> t
Fused(t) == t[Len(t)] \in {"in_proj_weight", "in_proj_bias"}
Stem(t) == SubSeq(t, 1, Len(t) - 1)
Projections(t, s) == LET what == IF t[Len(t)] = "in_proj_bias" THEN "bias" ELSE "weight" IN <<s \o <<"q_proj", what>>, s \o <<"k_proj", what>>, s \o <<"v_proj", what>>>>
Nothing == <<>>
One(s) == <<s>>

\* ---- the conversions: the source weights of a target (none: it has no counterpart)
UNET == <<"model", "diffusion_model">>
Sd1(t) == CASE Starts(t, UNET) -> One(<<"unet">> \o Denoiser(From(t, 3)))
            [] Starts(t, <<"cond_stage_model", "transformer">>) -> One(<<"te">> \o From(t, 3))
            [] Starts(t, <<"first_stage_model">>) -> One(<<"vae">> \o Vae(From(t, 2)))
            [] OTHER -> Nothing
SdxlKohya(t) == CASE Starts(t, UNET) -> One(<<"unet">> \o From(t, 3))
                  [] Starts(t, <<"conditioner", "embedders", "0", "transformer">>) -> One(<<"te1">> \o From(t, 5))
                  [] Starts(t, <<"conditioner", "embedders", "1", "model">>) /\ Fused(t) -> Projections(t, <<"te2">> \o Text(Stem(From(t, 5))))
                  [] Starts(t, <<"conditioner", "embedders", "1", "model">>) -> One(<<"te2">> \o Text(From(t, 5)))
                  [] Starts(t, <<"first_stage_model">>) -> One(t)
                  [] OTHER -> Nothing
SdxlDiffusers(t) == IF Starts(t, UNET) THEN One(Denoiser(From(t, 3))) ELSE Nothing
FluxFull(t) == IF Starts(t, UNET) THEN One(From(t, 3)) ELSE Nothing
FluxBackbone(t) == One(UNET \o t)
\* blocks: what comes before the blocks of the denoiser and everything beside it is BASE, what comes after them belongs to the last
Two(s) == IF Len(s) = 1 THEN "0" \o s ELSE s
BlockOf(t, end) == IF ~Starts(t, UNET) THEN "BASE"
                    ELSE CASE t[3] = "input_blocks" -> "IN" \o Two(t[4]) [] t[3] = "middle_block" -> "M00" [] t[3] = "output_blocks" -> "OUT" \o Two(t[4])
                           [] t[3] \in {"time_embed", "label_emb"} -> "BASE" [] OTHER -> end
Blocks1(t) == One(<<BlockOf(t, "OUT11")>>)
BlocksXl(t) == One(<<IF t[1] = "first_stage_model" THEN "VAE" ELSE BlockOf(t, "OUT08")>>)
Wanted(c, t) == CASE c = "sd1" -> Sd1(t) [] c = "sdxl" -> SdxlKohya(t) [] c = "sdxl unet" -> SdxlDiffusers(t) [] c = "flux" -> FluxFull(t) [] c = "flux backbone" -> FluxBackbone(t)
                  [] c = "sd1 blocks" -> Blocks1(t) [] c = "sdxl blocks" -> BlocksXl(t)
Blockwise == {"sd1 blocks", "sdxl blocks"}

Conv == Data[conv]
Name(s) == FoldLeft(LAMBDA a, b : IF a = "" THEN b ELSE a \o "." \o b, "", s)
SourceSets == [i \in 1..Len(Data) |-> {Data[i].sources[j].t : j \in 1..Len(Data[i].sources)}]
Shapes == [i \in 1..Len(Data) |-> [s \in SourceSets[i] |-> Data[i].sources[CHOOSE j \in 1..Len(Data[i].sources) : Data[i].sources[j].t = s].shape]]
\* a target whose counterpart the source layout does not have has none
Parts(c, t) == LET w == Wanted(Data[c].name, t) IN IF \A i \in 1..Len(w) : w[i] \in SourceSets[c] THEN w ELSE Nothing
Square(t) == Starts(t, <<"conditioner", "embedders", "1", "model", "text_projection">>)
Kernel(t) == Len(t) = 6 /\ t[1] = "first_stage_model" /\ t[3] = "mid" /\ t[4] = "attn_1" /\ t[5] \in {"q", "k", "v", "proj_out"} /\ t[6] = "weight"
How(c, t) == CASE Data[c].name = "sdxl" /\ Fused(t) -> "joined" [] Data[c].name = "sdxl" /\ Square(t) -> "transposed" [] Data[c].name = "sd1" /\ Kernel(t) -> "1x1 kernel" [] OTHER -> "same"
Shape(c, s) == Shapes[c][s]
Made(c, t) == LET p == Parts(c, t) IN
  CASE How(c, t) = "joined" -> <<Shape(c, p[1])[1] + Shape(c, p[2])[1] + Shape(c, p[3])[1]>> \o From(Shape(c, p[1]), 2)
    [] How(c, t) = "transposed" -> Reverse(Shape(c, p[1]))
    [] How(c, t) = "1x1 kernel" -> Shape(c, p[1]) \o <<1, 1>>
    [] OTHER -> Shape(c, p[1])

Init == pc = "choose" /\ conv = 0 /\ at = 0 /\ fed = {} /\ twice = {} /\ bad = {} /\ lost = {} /\ dropped = {} /\ near = <<>> /\ out = <<>>
Choose == /\ pc = "choose" /\ pc' = (IF MaxDropped = 0 THEN "feed" ELSE "drop") /\ \E c \in 1..Len(Data) : Data[c].name \in Conversions /\ conv' = c
          /\ UNCHANGED <<at, fed, twice, bad, lost, dropped, near, out>>
\* the source lacks some weights
DropOne == /\ pc = "drop" /\ Cardinality(dropped) < MaxDropped /\ \E j \in 1..Len(Conv.sources) : near' = Conv.sources[j].t /\ dropped' = dropped \cup {Conv.sources[j].t}
           /\ UNCHANGED <<pc, conv, at, fed, twice, bad, lost, out>>
\* or a part of something fused
JoinedParts == [c \in 1..Len(Data) |-> UNION {LET p == Parts(c, Data[c].targets[i].t) IN IF Len(p) > 1 THEN ToSet(p) ELSE {} : i \in 1..Len(Data[c].targets)}]
DropJoined == /\ pc = "drop" /\ Cardinality(dropped) < MaxDropped /\ \E s \in JoinedParts[conv] : near' = s /\ dropped' = dropped \cup {s}
              /\ UNCHANGED <<pc, conv, at, fed, twice, bad, lost, out>>
\* or all weights near one
DropPart == /\ pc = "drop" /\ near # <<>> /\ \E l \in 1..3 : dropped' = dropped \cup {s \in SourceSets[conv] : l <= Len(near) /\ Starts(s, SubSeq(near, 1, l))}
            /\ near' = <<>> /\ UNCHANGED <<pc, conv, at, fed, twice, bad, lost, out>>
Given == pc = "drop" /\ pc' = "all" /\ UNCHANGED <<conv, at, fed, twice, bad, lost, dropped, near, out>>
\* one target is made
Feed == /\ pc = "feed" /\ at < Len(Conv.targets)
        /\ LET t == Conv.targets[at + 1].t p == Parts(conv, t) IN
             /\ at' = at + 1 /\ fed' = fed \cup ToSet(p) /\ twice' = twice \cup (ToSet(p) \cap fed)
             /\ lost' = (IF p = Nothing THEN lost \cup {t} ELSE lost)
             /\ bad' = (IF p # Nothing /\ Conv.name \notin Blockwise /\ Made(conv, t) # Conv.targets[at + 1].shape THEN bad \cup {t} ELSE bad)
             /\ out' = Append(out, [t |-> t, parts |-> p, how |-> How(conv, t)])
        /\ UNCHANGED <<pc, conv, dropped, near>>
FedAll == pc = "feed" /\ at = Len(Conv.targets) /\ pc' = "done" /\ UNCHANGED <<conv, at, fed, twice, bad, lost, dropped, near, out>>
All == /\ pc = "all" /\ pc' = "done" /\ lost' = {t \in {Conv.targets[i].t : i \in 1..Len(Conv.targets)} : LET p == Parts(conv, t) IN p # Nothing /\ \E s \in ToSet(p) : s \in dropped}
       /\ UNCHANGED <<conv, at, fed, twice, bad, dropped, near, out>>
Next == Choose \/ DropOne \/ DropJoined \/ DropPart \/ Given \/ Feed \/ FedAll \/ All
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
Whole == MaxDropped = 0
\* each source weight feeds one target
FedOnce == conv # 0 /\ Conv.name \notin Blockwise => twice = {}
\* what is made has the shape the target layout says
Fits == bad = {}
\* no source weight with a counterpart is dropped: all are used
Complete == pc = "done" /\ Whole /\ (conv # 0 => Conv.name # "flux backbone") => fed = SourceSets[conv]
\* the backbone of flux is everything below the denoiser's prefix
Backbone == pc = "done" /\ Whole /\ Conv.name = "flux backbone" => fed = {s \in SourceSets[conv] : Starts(s, UNET)} /\ lost = {}
NoCounterpart(t) == CASE Conv.name = "sd1" -> t[1] \notin {"model", "first_stage_model", "cond_stage_model"} \/ t[Len(t)] = "position_ids"
                      [] Conv.name = "sdxl" -> t[1] \in {"v_pred", "ztsnr", "edm_vpred"} \/ t[Len(t)] = "logit_scale"
                      [] Conv.name \in {"sdxl unet", "flux"} -> ~Starts(t, UNET)
                      [] OTHER -> FALSE
OnlyTheRestIsMissing == Whole => \A t \in lost : NoCounterpart(t)
Emit == pc = "done" => CSVWrite("%1$s", <<ToJson([name |-> Conv.name, dropped |-> {Name(s) : s \in dropped}, lost |-> {Name(t) : t \in lost},
                                               out |-> [i \in 1..Len(out) |-> [t |-> Name(out[i].t), parts |-> [j \in 1..Len(out[i].parts) |-> Name(out[i].parts[j])], how |-> out[i].how]]])>>, IOEnv.OUT)
=============================================================================
