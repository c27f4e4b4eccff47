"""Tiny random models of every shipped architecture the installed transformers has code for."""
from __future__ import annotations

import itertools
import json

import torch
import transformers

TF = [False, True]
S = dict(vocab_size=16, hidden_size=8, intermediate_size=12, num_hidden_layers=2, num_attention_heads=2, num_key_value_heads=1,
         max_position_embeddings=32, pad_token_id=0, bos_token_id=1, eos_token_id=2)
HD = dict(S, head_dim=4)
BERT = dict(vocab_size=16, hidden_size=8, intermediate_size=12, num_hidden_layers=2, num_attention_heads=2, max_position_embeddings=32)
DB = dict(vocab_size=16, dim=8, hidden_dim=12, n_layers=2, n_heads=2, max_position_embeddings=32)
GPT2 = dict(vocab_size=16, n_embd=8, n_layer=2, n_head=2, n_positions=32)
MOE = dict(HD, moe_intermediate_size=6, num_experts=2, num_experts_per_tok=1)
VIS = dict(hidden_size=8, intermediate_size=12, num_hidden_layers=2, num_attention_heads=2, image_size=8, patch_size=4)
QVIS = dict(depth=2, hidden_size=8, out_hidden_size=8, intermediate_size=12, num_heads=2, patch_size=4)
Q3VIS = dict(QVIS, deepstack_visual_indexes=[0, 1, 1], num_position_embeddings=16)
TIE = {"tie_word_embeddings": TF}
ATT = {"tie_word_embeddings": TF, "attention_bias": TF}
N = "num_hidden_layers"
LAYERS = {N: [1, 3]}

# shipped definition -> [(class, configuration class, base arguments, axes)]
MODELS = {
    "apertus": [("ApertusForCausalLM", "ApertusConfig", S, {**ATT, **LAYERS})],
    "arcee": [("ArceeForCausalLM", "ArceeConfig", S, {**ATT, "mlp_bias": TF})],
    "bert-masked-lm": [("BertForMaskedLM", "BertConfig", BERT, {**TIE, **LAYERS})],
    "bert-sequence-classification": [("BertForSequenceClassification", "BertConfig", BERT, TIE), ("BertForMultipleChoice", "BertConfig", BERT, TIE),
                                     ("BertForTokenClassification", "BertConfig", BERT, TIE)],
    "bert": [("BertModel", "BertConfig", BERT, LAYERS)],
    "cohere": [("CohereForCausalLM", "CohereConfig", S, {**ATT, "use_qk_norm": TF})],
    "cohere2": [("Cohere2ForCausalLM", "Cohere2Config", S, {**ATT, **LAYERS})],
    "distilbert-masked-lm": [("DistilBertForMaskedLM", "DistilBertConfig", DB, {**TIE, "sinusoidal_pos_embds": TF})],
    "distilbert-sequence-classification": [("DistilBertForSequenceClassification", "DistilBertConfig", DB, TIE)],
    "distilbert-token-classification": [("DistilBertForTokenClassification", "DistilBertConfig", DB, TIE)],
    "distilbert": [("DistilBertModel", "DistilBertConfig", DB, {"n_layers": [1, 3]})],
    "falcon": [("FalconForCausalLM", "FalconConfig", dict(vocab_size=16, hidden_size=8, num_hidden_layers=2, num_attention_heads=2, num_kv_heads=1),
                {**TIE, "new_decoder_architecture": TF, "bias": TF, "parallel_attn": TF, "multi_query": TF})],
    "gemma": [("GemmaForCausalLM", "GemmaConfig", HD, {**ATT, **LAYERS})],
    "gemma2": [("Gemma2ForCausalLM", "Gemma2Config", HD, {**ATT, **LAYERS})],
    "gemma3": [("Gemma3ForCausalLM", "Gemma3TextConfig", HD, {**ATT, **LAYERS})],
    "gemma3vl": [("Gemma3ForConditionalGeneration", "Gemma3Config",
                  dict(text_config=HD, vision_config=dict(VIS, vision_use_head=False), mm_tokens_per_image=4),
                  {**TIE, "text_config.attention_bias": TF, "text_config." + N: [1, 2], "vision_config." + N: [1, 3]})],
    "glm4": [("Glm4ForCausalLM", "Glm4Config", HD, {**ATT, **LAYERS})],
    "glm4moe": [("Glm4MoeForCausalLM", "Glm4MoeConfig", dict(HD, moe_intermediate_size=6, n_routed_experts=2, num_experts_per_tok=1, n_group=1, topk_group=1),
                 {**ATT, "use_qk_norm": TF, "first_k_dense_replace": [0, 1, 2], "n_routed_experts": [2, 3]})],
    "gpt-neox": [("GPTNeoXForCausalLM", "GPTNeoXConfig",
                  dict(vocab_size=16, hidden_size=8, intermediate_size=12, num_hidden_layers=2, num_attention_heads=2, max_position_embeddings=32),
                  {**ATT, "use_parallel_residual": TF})],
    "gpt2-sequence-classification": [("GPT2ForSequenceClassification", "GPT2Config", GPT2, {"n_layer": [1, 3]})],
    "gpt2": [("GPT2LMHeadModel", "GPT2Config", GPT2, {**TIE, "n_layer": [1, 3]})],
    "gptbigcode": [("GPTBigCodeForCausalLM", "GPTBigCodeConfig", GPT2, {**TIE, "multi_query": TF})],
    "granite": [("GraniteForCausalLM", "GraniteConfig", S, {**ATT, "mlp_bias": TF})],
    "granite4moehybrid": [("GraniteMoeHybridForCausalLM", "GraniteMoeHybridConfig",
                           dict(S, shared_intermediate_size=12, num_experts_per_tok=1, mamba_n_heads=2, mamba_d_head=8, mamba_n_groups=1, mamba_d_state=4, mamba_expand=2),
                           {**ATT, "num_local_experts": [0, 2], "mamba_conv_bias": TF, "mamba_proj_bias": TF,
                            "layer_types": [["mamba", "attention"], ["attention", "mamba"], ["mamba", "mamba"], ["attention", "attention"]]})],
    "lfm2": [("Lfm2ForCausalLM", "Lfm2Config", dict(S, block_ff_dim=12),
              {**TIE, "conv_bias": TF, "layer_types": [["conv", "full_attention"], ["full_attention", "conv"], ["conv", "conv"]]})],
    "llama-sequence-classification": [("LlamaForSequenceClassification", "LlamaConfig", S, {"attention_bias": TF, "mlp_bias": TF})],
    "llama": [("LlamaForCausalLM", "LlamaConfig", S, {**ATT, "mlp_bias": TF, N: [1, 2, 3]})],
    "llama4": [("Llama4ForConditionalGeneration", "Llama4Config",
                dict(text_config=dict(HD, intermediate_size_mlp=12, num_local_experts=2, num_experts_per_tok=1),
                     vision_config=dict(VIS, intermediate_size=32, vision_output_dim=8, projector_input_dim=8, projector_output_dim=8)),
                {**TIE, "text_config.attention_bias": TF, "text_config.interleave_moe_layer_step": [1, 2]})],
    "mamba": [("MambaForCausalLM", "MambaConfig", dict(vocab_size=16, hidden_size=8, state_size=4, num_hidden_layers=2), {**TIE, "use_bias": TF, "use_conv_bias": TF})],
    "mistral": [("MistralForCausalLM", "MistralConfig", S, {**TIE, **LAYERS})],
    "mistral3": [("Mistral3ForConditionalGeneration", "Mistral3Config",
                  dict(text_config=dict(HD, model_type="mistral"), vision_config=dict(VIS, model_type="pixtral")),
                  {**TIE, "multimodal_projector_bias": TF, "text_config." + N: [1, 2], "vision_config." + N: [1, 3]})],
    "mixtral": [("MixtralForCausalLM", "MixtralConfig", dict(S, num_experts_per_tok=1), {**TIE, "num_local_experts": [2, 3], **LAYERS})],
    "olmo2": [("Olmo2ForCausalLM", "Olmo2Config", S, {**ATT, **LAYERS})],
    "phi2": [("PhiForCausalLM", "PhiConfig", dict(S, num_key_value_heads=2), {**TIE, "qk_layernorm": TF})],
    "phi3": [("Phi3ForCausalLM", "Phi3Config", S, {**TIE, **LAYERS})],
    "qwen2": [("Qwen2ForCausalLM", "Qwen2Config", S, {**TIE, **LAYERS})],
    "qwen2_5_vl": [("Qwen2_5_VLForConditionalGeneration", "Qwen2_5_VLConfig", dict(text_config=S, vision_config=QVIS),
                    {**TIE, "text_config." + N: [1, 2], "vision_config.depth": [1, 3]})],
    "qwen2_vl": [("Qwen2VLForConditionalGeneration", "Qwen2VLConfig",
                  dict(text_config=S, vision_config=dict(depth=2, embed_dim=8, hidden_size=8, num_heads=2, mlp_ratio=2, patch_size=4)),
                  {**TIE, "text_config." + N: [1, 2], "vision_config.depth": [1, 3]})],
    "qwen3": [("Qwen3ForCausalLM", "Qwen3Config", HD, {**ATT, **LAYERS})],
    "qwen3_moe": [("Qwen3MoeForCausalLM", "Qwen3MoeConfig", MOE, {**ATT, "num_experts": [2, 3], **LAYERS})],
    "qwen3_vl": [("Qwen3VLMoeForConditionalGeneration", "Qwen3VLMoeConfig", dict(text_config=MOE, vision_config=Q3VIS),
                  {**TIE, "text_config.attention_bias": TF, "text_config." + N: [1, 2]})],
    "qwen3_vl_dense": [("Qwen3VLForConditionalGeneration", "Qwen3VLConfig", dict(text_config=HD, vision_config=Q3VIS),
                        {**TIE, "text_config.attention_bias": TF, "text_config." + N: [1, 2]})],
    "roberta-masked-lm": [("RobertaForMaskedLM", "RobertaConfig", BERT, {**TIE, **LAYERS})],
    "roberta-sequence-classification": [("RobertaForSequenceClassification", "RobertaConfig", BERT, LAYERS)],
    "roberta-token-classification": [("RobertaForTokenClassification", "RobertaConfig", BERT, LAYERS)],
    "roberta": [("RobertaModel", "RobertaConfig", BERT, LAYERS)],
    "stablelm2": [("StableLmForCausalLM", "StableLmConfig", S, {**TIE, "use_qkv_bias": TF, "qk_layernorm": TF, "use_parallel_residual": TF})],
    "starcoder2": [("Starcoder2ForCausalLM", "Starcoder2Config", S, {**TIE, "use_bias": TF})],
    "t5": [("T5ForConditionalGeneration", "T5Config", dict(vocab_size=16, d_model=8, d_kv=4, d_ff=12, num_layers=2, num_heads=2),
            {**TIE, "feed_forward_proj": ["relu", "gated-gelu"], "num_layers": [1, 2], "num_decoder_layers": [1, 3]})],
    "whisper": [("WhisperForConditionalGeneration", "WhisperConfig",
                 dict(vocab_size=32, d_model=8, encoder_layers=2, decoder_layers=2, encoder_attention_heads=2, decoder_attention_heads=2,
                      encoder_ffn_dim=12, decoder_ffn_dim=12, num_mel_bins=4, max_source_positions=8, max_target_positions=8,
                      pad_token_id=0, bos_token_id=1, eos_token_id=2, decoder_start_token_id=1),
                 {**TIE, "encoder_layers": [1, 2], "decoder_layers": [1, 3]})],
    # built in code rather than from a definition file
    "(afmoe)": [("AfmoeForCausalLM", "AfmoeConfig",
                 dict(HD, moe_intermediate_size=6, num_experts_per_tok=1, num_dense_layers=1, num_hidden_layers=3, num_shared_experts=1, n_group=1, topk_group=1),
                 {**ATT, "num_experts": [2, 3], "num_dense_layers": [0, 1, 2]})],
}

# architectures without a definition: tensors are worked out from the checkpoint and the model code
INFERRED = {
    "opt": [("OPTForCausalLM", "OPTConfig", dict(vocab_size=16, hidden_size=8, ffn_dim=12, num_hidden_layers=2, num_attention_heads=2, max_position_embeddings=32, word_embed_proj_dim=8), {**TIE, **LAYERS})],
    "gptj": [("GPTJForCausalLM", "GPTJConfig", dict(GPT2, rotary_dim=4), {**TIE, "n_layer": [1, 3]})],
    "bloom": [("BloomForCausalLM", "BloomConfig", dict(vocab_size=16, hidden_size=8, n_layer=2, n_head=2), {**TIE, "n_layer": [1, 3]})],
    "olmo": [("OlmoForCausalLM", "OlmoConfig", S, {**ATT, **LAYERS})],
    "smollm3": [("SmolLM3ForCausalLM", "SmolLM3Config", S, {**TIE, **LAYERS})],
    "qwen2_moe": [("Qwen2MoeForCausalLM", "Qwen2MoeConfig", dict(S, moe_intermediate_size=6, shared_expert_intermediate_size=6, num_experts_per_tok=1), {**TIE, "num_experts": [2, 3]})],
    "mpt": [("MptForCausalLM", "MptConfig", dict(vocab_size=16, d_model=8, n_layers=2, n_heads=2, max_seq_len=32), TIE)],
    "gpt_neo": [("GPTNeoForCausalLM", "GPTNeoConfig", dict(vocab_size=16, hidden_size=8, num_layers=2, num_heads=2, attention_types=[[["global", "local"], 1]], max_position_embeddings=32), TIE)],
    "llava": [("LlavaForConditionalGeneration", "LlavaConfig", dict(text_config=dict(S, model_type="llama"), vision_config=dict(VIS, model_type="clip_vision_model", projection_dim=8)),
               {"multimodal_projector_bias": TF, "text_config.attention_bias": TF})],
    "bart": [("BartForConditionalGeneration", "BartConfig", dict(vocab_size=16, d_model=8, encoder_layers=2, decoder_layers=2, encoder_attention_heads=2, decoder_attention_heads=2,
                                                                 encoder_ffn_dim=12, decoder_ffn_dim=12, max_position_embeddings=32), {"encoder_layers": [1, 3]})],
    "vit": [("ViTForImageClassification", "ViTConfig", VIS, {"qkv_bias": TF})],
}


def settings(axes):
    for combo in itertools.product(*axes.values()):
        yield dict(zip(axes, combo))


def config(cls, base, setting):
    kw = json.loads(json.dumps(base))
    for k, v in setting.items():
        t = kw
        *path, last = k.split(".")
        for p in path:
            t = t[p]
        t[last] = v
    return getattr(transformers, cls)(**kw)


def build(arch, cfg, seed):
    """Random weights, all different, also where the initialisation is constant."""
    torch.manual_seed(seed)
    m = getattr(transformers, arch)(cfg)
    with torch.no_grad():
        for p in m.parameters():
            p.copy_(torch.randint(-512, 513, p.shape).to(p.dtype) / 64)
    return m


def load(arch, path):
    """-> (state dict, loading problems)"""
    m, info = getattr(transformers, arch).from_pretrained(path, output_loading_info=True)
    return m.state_dict(), {k: sorted(map(str, v)) for k, v in info.items() if v}
